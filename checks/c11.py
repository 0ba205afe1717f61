"""C11: one-step tabular temporal-difference learners against their published rules."""
import itertools

import numpy as np

from mushroom_rl.algorithms.value import (SARSA, ExpectedSARSA, QLearning, DoubleQLearning, SpeedyQLearning, RLearning,
                                          WeightedQLearning, MaxminQLearning, RQLearning)
from mushroom_rl.core import Dataset, DatasetInfo, MDPInfo
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.parameters import Parameter, DecayParameter
from mushroom_rl.rl_utils.spaces import Discrete
from mushroom_rl.rl_utils.variance_parameters import VarianceIncreasingParameter
from mc.harness import Family, expect
from mc.explore import explore, controlled_random

ASSUMPTIONS = ['dyadic rewards, rates and discount: both sides compute exactly', 'transitions are given to fit one by one, '
               'as the interaction loop does; they need not be chained', 'R-learning is driven with next states different '
               'from the state (the order of its two updates is otherwise a matter of convention)',
               'for the randomised learners the distribution of the tables over all random outcomes is compared']
S, A = 3, 2
GAMMA = .5


class ScriptPolicy(Policy):
    """Returns the actions of a script, one after the other, whatever the state; declares fixed probabilities."""

    def __init__(self, script):
        super().__init__()
        self.script, self.k, self.q = list(script), 0, None

    def set_q(self, q):
        self.q = q

    def __call__(self, *args):
        s = int(np.asarray(args[0]).reshape(-1)[0])
        p = np.array([.25, .75]) if s % 2 else np.array([.5, .5])
        if len(args) > 1:
            return p[int(np.asarray(args[1]).reshape(-1)[0])]
        return p

    def draw_action(self, state, policy_state=None):
        a = self.script[self.k % len(self.script)]
        self.k += 1
        return np.array([a]), None

    def reset(self):
        return None


def mdp_info():
    return MDPInfo(Discrete(S), Discrete(A), GAMMA, 100)


def one(t):
    s, a, r, ns, ab, la = t
    ds = Dataset(DatasetInfo('numpy', None, 100, GAMMA, (1,), int, (1,), int, None), n_steps=1)
    ds.append((np.array([s]), np.array([a]), r, np.array([ns]), bool(ab), bool(la)), {})
    return ds


def rate(kind):
    if kind == 'const':
        return Parameter(.5)
    if kind == 'global':
        return DecayParameter(1., exp=1.)
    if kind == 'var':
        return VarianceIncreasingParameter(value=.5, tol=.5, size=(S, A))
    return DecayParameter(1., exp=1., size=(S, A))


class RefRate:
    def __init__(self, kind):
        self.kind, self.n = kind, {}
        self.param = rate('var') if kind == 'var' else None

    def __call__(self, s, a, **kw):
        if self.kind == 'var':
            # the schedule itself is decided by C15; here: what it is told
            return float(np.asarray(self.param(np.array([s]), np.array([a]), **kw)).reshape(-1)[0])
        if self.kind == 'const':
            return .5
        k = (s, a) if self.kind == 'pair' else None
        self.n[k] = self.n.get(k, 0) + 1
        return 1. / self.n[k]


def zero():
    return [[0.] * A for _ in range(S)]


# ---------------------------------------------------------------- reference learners
class Ref:
    def __init__(self, cfg):
        self.cfg = cfg
        self.Q = zero()
        self.alpha = RefRate(cfg['rate'])
        self.old = zero()
        self.rho = 0.
        self.R, self.T = zero(), zero()
        self.beta = RefRate(cfg.get('beta', 'const'))

    def tables(self):
        return [self.Q]

    def update(self, t, executed):
        s, a, r, ns, ab, la = t
        kind = self.cfg['alg']
        Q = self.Q
        mx = 0. if ab else max(Q[ns])
        if kind == 'QLearning':
            Q[s][a] += self.alpha(s, a) * (r + GAMMA * mx - Q[s][a])
        elif kind == 'SARSA':
            Q[s][a] += self.alpha(s, a) * (r + GAMMA * (0. if ab else Q[ns][executed]) - Q[s][a])
        elif kind == 'ExpectedSARSA':
            p = [.25, .75] if ns % 2 else [.5, .5]
            e = 0. if ab else sum(x * y for x, y in zip(p, Q[ns]))
            Q[s][a] += self.alpha(s, a) * (r + GAMMA * e - Q[s][a])
        elif kind == 'SpeedyQLearning':
            before = [list(x) for x in Q]
            mo = 0. if ab else max(self.old[ns])
            al = self.alpha(s, a)
            to, tc = r + GAMMA * mo, r + GAMMA * mx
            Q[s][a] += al * (to - Q[s][a]) + (1 - al) * (tc - to)
            self.old = before
        elif kind == 'RLearning':
            Q[s][a] += self.alpha(s, a) * (r - self.rho + mx - Q[s][a])
            if Q[s][a] == max(Q[s]):
                self.rho += self.beta(s, a) * (r + mx - max(Q[s]) - self.rho)
        elif kind == 'RQLearning':
            al = self.alpha(s, a, target=r)
            self.R[s][a] += al * (r - self.R[s][a])
            if not ab:
                qn = mx if self.cfg['off'] else Q[ns][executed]
                b = self.beta(s, a, target=qn, **({'factor': al} if self.cfg['delta'] else {})) * (
                    al if self.cfg['delta'] else 1.)
                self.T[s][a] += b * (qn - self.T[s][a])
            Q[s][a] = self.R[s][a] + GAMMA * self.T[s][a]
        else:
            raise AssertionError(kind)


def make(cfg, script):
    pol = ScriptPolicy(script)
    i, r = mdp_info(), rate(cfg['rate'])
    k = cfg['alg']
    if k == 'RLearning':
        return RLearning(i, pol, r, rate(cfg['beta'])), pol
    if k == 'RQLearning':
        kw = {'delta' if cfg['delta'] else 'beta': rate(cfg['beta'])}
        return RQLearning(i, pol, r, off_policy=cfg['off'], **kw), pol
    return {'QLearning': QLearning, 'SARSA': SARSA, 'ExpectedSARSA': ExpectedSARSA,
            'SpeedyQLearning': SpeedyQLearning}[k](i, pol, r), pol


def same(table, ref):
    return np.allclose(np.asarray(table, dtype=float), np.array(ref), atol=1e-9)


def run_det(case, st):
    cfg = case['cfg']
    agent, pol = make(cfg, case['script'])
    ref = Ref(cfg)
    on_policy = cfg['alg'] == 'SARSA' or (cfg['alg'] == 'RQLearning' and not cfg['off'])
    for q, t in enumerate(case['seq']):
        agent.fit(one(t))
        # what the agent executes next, in the state it reached
        a_next = int(agent.draw_action(np.array([t[3]]))[0][0])
        ref.update(t, a_next)
        if t[5]:
            agent.next_action = None
        expect(same(agent.Q.table, ref.Q), 'after transition', q, t, 'table', np.asarray(agent.Q.table).tolist(),
               'expected', ref.Q, '(next action executed: %d)' % a_next if on_policy else '')
        expect(np.allclose(pol.q.predict(np.array([t[0]])), ref.Q[t[0]]), 'the policy does not see the learned values')
        st.step()
        st.state(cfg['alg'], cfg['rate'], str(ref.Q), str(ref.old), ref.rho, str(ref.R))
    st.outcome(cfg['alg'], str(ref.Q))
    st.trace()


# ---------------------------------------------------------------- randomised learners
def dist_impl(cfg, seq):
    def fn(ch):
        with controlled_random(ch, lattice=2, normals=cfg.get('normals', (-1., 1.))):
            pol = ScriptPolicy([0, 1])
            i, r = mdp_info(), rate(cfg['rate'])
            if cfg['alg'] == 'DoubleQLearning':
                ag = DoubleQLearning(i, pol, r)
            elif cfg['alg'] == 'MaxminQLearning':
                ag = MaxminQLearning(i, pol, r, cfg['n'])
            else:
                ag = WeightedQLearning(i, pol, r, sampling=True, precision=cfg['n'])
            for t in seq:
                ag.fit(one(t))
        tabs = [m.table for m in ag.Q.model] if hasattr(ag.Q, 'model') else [ag.Q.table]
        return str([np.round(np.asarray(t, dtype=float), 8).tolist() for t in tabs])
    d = {}
    n = 0
    for path, p, res in explore(fn):
        d[res] = d.get(res, 0.) + p
        n += 1
    return d, n


def dist_ref(cfg, seq):
    def fn(ch):
        n = 2 if cfg['alg'] == 'DoubleQLearning' else (cfg['n'] if cfg['alg'] == 'MaxminQLearning' else 1)
        Q = [zero() for _ in range(n)]
        al = [RefRate(cfg['rate']) for _ in range(n)]
        Q2, w1, w2, cnt, sig = zero(), zero(), zero(), zero(), [[1e10] * A for _ in range(S)]
        for s, a, r, ns, ab, la in seq:
            if cfg['alg'] == 'DoubleQLearning':
                i = ch.choose(2)
                qn = 0.
                if not ab:
                    best = [b for b in range(A) if Q[i][ns][b] == max(Q[i][ns])]
                    qn = Q[1 - i][ns][best[ch.choose(len(best)) if len(best) > 1 else 0]]
                Q[i][s][a] += al[i](s, a) * (r + GAMMA * qn - Q[i][s][a])
            elif cfg['alg'] == 'MaxminQLearning':
                i = ch.choose(n)
                qn = 0. if ab else max(min(Q[k][ns][b] for k in range(n)) for b in range(A))
                Q[i][s][a] += al[i](s, a) * (r + GAMMA * qn - Q[i][s][a])
            else:
                q = Q[0]
                qn = 0.
                if not ab:
                    w = [0.] * A
                    zs = cfg['normals']
                    for _ in range(cfg['n']):
                        x = [q[ns][b] + sig[ns][b] * zs[ch.choose(len(zs))] for b in range(A)]
                        w[x.index(max(x))] += 1. / cfg['n']
                    qn = sum(w[b] * q[ns][b] for b in range(A))
                tg = r + GAMMA * qn
                k = al[0](s, a)
                q[s][a] += k * (tg - q[s][a])
                Q2[s][a] += k * (tg ** 2 - Q2[s][a])
                cnt[s][a] += 1
                w2[s][a] = (1 - k) ** 2 * w2[s][a] + k ** 2
                w1[s][a] = (1 - k) * w1[s][a] + k
                if cnt[s][a] > 1:
                    v = (Q2[s][a] - q[s][a] ** 2) * w2[s][a] / (w1[s][a] * 2 + 1e-10)
                    sig[s][a] = max(v, 1e-10) ** .5
        return str([np.round(np.array(t), 8).tolist() for t in Q])
    d = {}
    for path, p, res in explore(fn):
        d[res] = d.get(res, 0.) + p
    return d


def run_rand(case, st):
    cfg = case['cfg']
    seq = case['seq']
    di, n = dist_impl(cfg, seq)
    dr = dist_ref(cfg, seq)
    di = {k.replace('-0.0', '0.0'): v for k, v in di.items()}
    dr = {k.replace('-0.0', '0.0'): v for k, v in dr.items()}
    expect(set(di) == set(dr), 'reachable tables differ: only in the code', sorted(set(di) - set(dr))[:2],
           'only in the rule', sorted(set(dr) - set(di))[:2])
    for k in di:
        expect(abs(di[k] - dr[k]) < 1e-9, 'probability of', k, di[k], 'expected', dr[k])
        st.state(cfg['alg'], k)
    st.step(n * len(seq))
    st.outcome(cfg['alg'], str(sorted(di)))
    st.trace(n)


# ---------------------------------------------------------------- enumeration
CFGS = [{'alg': 'QLearning', 'rate': 'pair'}, {'alg': 'SARSA', 'rate': 'pair'}, {'alg': 'ExpectedSARSA', 'rate': 'pair'},
        {'alg': 'SpeedyQLearning', 'rate': 'pair'}, {'alg': 'RLearning', 'rate': 'pair', 'beta': 'const'},
        {'alg': 'RQLearning', 'rate': 'pair', 'beta': 'const', 'off': True, 'delta': False},
        {'alg': 'RQLearning', 'rate': 'const', 'beta': 'pair', 'off': False, 'delta': True}]
CFGS2 = [dict(c, rate=r) for c in CFGS for r in ('const', 'global')]
CFGS2 += [{'alg': 'RLearning', 'rate': 'const', 'beta': 'pair'}, {'alg': 'RLearning', 'rate': 'const', 'beta': 'global'},
          {'alg': 'RQLearning', 'rate': 'pair', 'beta': 'pair', 'off': True, 'delta': True},
          {'alg': 'RQLearning', 'rate': 'const', 'beta': 'const', 'off': False, 'delta': False}]


def alphabet(states=(0, 1), rewards=(1., -2.)):
    return [(s, a, r, ns, ab, la) for s in states for a in range(A) for r in rewards for ns in states
            for ab, la in ((0, 0), (1, 1))]


def ok(cfg, seq):
    return cfg['alg'] != 'RLearning' or all(t[0] != t[3] for t in seq)


def det_cases(tier):
    full = alphabet()
    L3 = [t for t in full if t[2] == 1. or t[0] == 0]
    for cfg in CFGS:
        for L in (1, 2):
            for seq in itertools.product(full, repeat=L):
                if ok(cfg, seq):
                    yield {'cfg': cfg, 'seq': seq, 'script': [1, 0, 0]}
        for seq in itertools.product(L3 if tier == 'thorough' else L3[::2], full[::3] if tier != 'thorough' else full,
                                     L3):
            if ok(cfg, seq):
                yield {'cfg': cfg, 'seq': seq, 'script': [1, 0, 1, 1]}
    small = [t for t in alphabet((0, 2), (1., -.5))]
    for cfg in CFGS2[-4:]:
        zero_ = [t for t in alphabet((0, 1), (0., 1.)) if t[3] != t[0]]
        for seq in itertools.product(zero_, repeat=3):
            if ok(cfg, seq):
                yield {'cfg': cfg, 'seq': seq, 'script': [0, 1, 1]}
    for cfg in CFGS2:
        for seq in itertools.product(small, repeat=2):
            if ok(cfg, seq):
                yield {'cfg': cfg, 'seq': seq + (seq[0],), 'script': [0, 1, 1]}


def variance_cases(tier):
    """Step sizes that depend on the variance of their target: every sequence of four (five) steps over two states."""
    al = [(s, a, r, 1 - s, ab, ab) for s in (0, 1) for a in range(2) for r in (1., -2.) for ab in (0, 1)]
    al = [t for t in al if t[1] == 0 or t[0] == 0]
    if tier == 'quick':
        al = [t for t in al if t[4] == 0 or t[2] == 1.]
    for cfg in ({'alg': 'RQLearning', 'rate': 'const', 'beta': 'var', 'off': True, 'delta': True},
                {'alg': 'RQLearning', 'rate': 'pair', 'beta': 'var', 'off': False, 'delta': True},
                {'alg': 'RQLearning', 'rate': 'var', 'beta': 'var', 'off': True, 'delta': False}):
        for seq in itertools.product(al, repeat=4):
            yield {'cfg': cfg, 'seq': seq, 'script': [0, 1, 1]}


def long_cases(tier):
    """Revisits: all sequences of five (six) chained steps over two states with deterministic rewards."""
    L = 5 if tier == 'quick' else 6
    for cfg in CFGS + CFGS2[:6]:
        for acts in itertools.product([0, 1], repeat=L):
            for ends in itertools.product([0, 1, 2], repeat=2):
                s = 0
                seq = []
                for i, a in enumerate(acts):
                    e = ends[i // 2] if i in (1, 3) else 0       # 0 go on, 1 absorbing, 2 truncated
                    ns = (s + 1 + a) % S
                    seq.append((s, a, [1., -1., .5][(s + a) % 3], ns, int(e == 1), int(e > 0)))
                    s = 0 if e else ns
                yield {'cfg': cfg, 'seq': seq, 'script': [1, 0, 0, 1]}


def rand_cases(tier):
    al = alphabet((0, 1), (1., -2.))
    al = [t for t in al if not (t[4] and t[3] == 1)]
    for cfg in ({'alg': 'DoubleQLearning', 'rate': 'pair'}, {'alg': 'MaxminQLearning', 'rate': 'pair', 'n': 2},
                {'alg': 'MaxminQLearning', 'rate': 'const', 'n': 3}):
        for L in (1, 2):
            for seq in itertools.product(al, repeat=L):
                yield {'cfg': cfg, 'seq': seq}
        step = 5 if tier == 'quick' else 2
        for seq in itertools.product(al[::step], al[1::step], al[2::step]):
            yield {'cfg': cfg, 'seq': seq}
            if tier != 'quick':
                yield {'cfg': dict(cfg, rate='const'), 'seq': seq + (seq[0],)}
    for n in (1, 2):
        cfg = {'alg': 'WeightedQLearning', 'rate': 'pair', 'n': n, 'normals': (-1., .5)}
        small = al[::3] if n == 1 else al[::6]
        for L in (1, 2, 3) if n == 1 else (1, 2):
            for seq in itertools.product(small, repeat=L):
                yield {'cfg': cfg, 'seq': seq}
                if tier != 'quick':
                    yield {'cfg': dict(cfg, rate='const'), 'seq': seq}


def weighted_cases(tier):
    """Both actions of a state are tried often enough to have a finite uncertainty, then the state is bootstrapped from."""
    rs = (1., -2., .5) if tier == 'quick' else (1., -2., .5, 0.)
    for rate_, n, zs in (('const', 2, (-1., .5)), ('pair', 2, (-1., .5)), ('pair', 3, (-1.5, 1.))):
        cfg = {'alg': 'WeightedQLearning', 'rate': rate_, 'n': n, 'normals': zs}
        for r in itertools.product(rs, repeat=4):
            seq = [(0, 0, r[0], 1, 1, 1), (0, 0, r[1], 1, 1, 1), (0, 1, r[2], 1, 1, 1), (0, 1, r[3], 1, 1, 1)]
            yield {'cfg': cfg, 'seq': seq + [(1, 0, 1., 0, 0, 0)]}
            yield {'cfg': cfg, 'seq': seq[:3] + [(1, 0, 1., 0, 0, 1), (1, 1, -1., 0, 1, 1)]}
            yield {'cfg': cfg, 'seq': seq + [(0, 1, r[0], 1, 1, 1), (0, 0, .5, 0, 0, 0)]}


FAMILIES = [
    Family('weighted', weighted_cases, run_rand, 'all rewards of four visits to a state before it is bootstrapped from, all draws of up to 3 samples from a two-point lattice', chunk=20),
    Family('one-step', det_cases, run_det, 'all sequences of up to 2 transitions over 2 states, 2 actions, 2 rewards, '
           'flags, and a fixed sub-lattice of those of 3; constant, global and per-pair learning rates'),
    Family('variance-rates', variance_cases, run_det, 'RQ-learning with variance-dependent step sizes: all sequences of 4 transitions over a fixed alphabet'),
    Family('chained', long_cases, run_det, 'all action sequences of 5 (6) steps with all placements of two episode ends'),
    Family('randomised', rand_cases, run_rand, 'all sequences of up to 2 (3 on a sub-lattice) transitions; all coin '
           'flips, ties and normal draws from a two-point lattice'),
]
