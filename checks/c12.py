"""C12: eligibility traces, tabular and linear."""
import itertools

import numpy as np

from mushroom_rl.algorithms.value import SARSALambda, QLambda, SARSALambdaContinuous, TrueOnlineSARSALambda
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Dataset, DatasetInfo, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.rl_utils.parameters import Parameter, DecayParameter
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mc.harness import Family, expect
from checks.c11 import ScriptPolicy, mdp_info, one, rate, RefRate, zero, same, S, A, GAMMA

ASSUMPTIONS = ['Q(lambda) is the variant that does not cut traces on exploratory actions, which is the one implemented',
               'transitions are given to fit one by one as the interaction loop does, and episode_start is called at the '
               'beginning of each episode']


def lam_param(cfg):
    return DecayParameter(1., exp=1.) if cfg['lam'] == 'decay' else cfg['lam']


def lam_at(cfg, n):
    """lambda at the n-th transition: a schedule advances once per transition."""
    return 1. / n if cfg['lam'] == 'decay' else cfg['lam']


def run_tab(case, st):
    cfg = case['cfg']
    cls = {'SARSALambda': SARSALambda, 'QLambda': QLambda}[cfg['alg']]
    pol = ScriptPolicy(case['script'])
    agent = cls(mdp_info(), pol, rate(cfg['rate']), lam_param(cfg), trace=cfg['trace'])
    alpha = RefRate(cfg['rate'])
    Q, e = zero(), zero()
    fresh = True
    for q, t in enumerate(case['seq']):
        s, a, r, ns, ab, la = t
        if fresh:
            agent.next_action = None
            agent.episode_start(np.array([s]), {})
            e = zero()
            fresh = False
        agent.fit(one(t))
        a_next = int(agent.draw_action(np.array([ns]))[0][0])
        agent.next_action = np.array([a_next]) if not la else None
        if ab:
            qn = 0.
        else:
            qn = Q[ns][a_next] if cfg['alg'] == 'SARSALambda' else max(Q[ns])
        d = r + GAMMA * qn - Q[s][a]
        e[s][a] = 1. if cfg['trace'] == 'replacing' else e[s][a] + 1.
        al = alpha(s, a)
        for i in range(S):
            for j in range(A):
                Q[i][j] += al * d * e[i][j]
                e[i][j] *= GAMMA * lam_at(cfg, q + 1)
        expect(same(agent.Q.table, Q), 'after transition', q, t, 'table', np.asarray(agent.Q.table).tolist(), 'expected', Q)
        st.step()
        st.state(cfg['alg'], cfg['trace'], cfg['lam'], cfg['rate'], str(Q), str(e))
        fresh = bool(la)
    st.outcome(str(Q))
    st.trace()


# ---------------------------------------------------------------- linear
PTS = [0., 1., 2.]


def phi_ref(s, a):
    f = [1., s, (s - 1.) ** 2]
    return np.array(f + [0.] * 3 if a == 0 else [0.] * 3 + f)


def features():
    return Features(basis_list=[lambda x: 1., lambda x: float(x[0]), lambda x: float((x[0] - 1.) ** 2)])


def one_c(t):
    s, a, r, ns, ab, la = t
    ds = Dataset(DatasetInfo('numpy', None, 100, GAMMA, (1,), float, (1,), int, None), n_steps=1)
    ds.append((np.array([s]), np.array([a]), r, np.array([ns]), bool(ab), bool(la)), {})
    return ds


def run_lin(case, st):
    cfg = case['cfg']
    info = MDPInfo(Box(np.array([-10.]), np.array([10.])), Discrete(2), GAMMA, 100)
    pol = ScriptPolicy(case['script'])
    phi = features()
    params = dict(input_shape=(phi.size,), output_shape=(2,), n_actions=2, phi=phi)
    al_p = Parameter(.25) if cfg['rate'] == 'const' else DecayParameter(.5, exp=1.)
    if cfg['alg'] == 'TrueOnlineSARSALambda':
        agent = TrueOnlineSARSALambda(info, pol, al_p, lam_param(cfg), approximator_params=params)
    else:
        agent = SARSALambdaContinuous(info, pol, LinearApproximator, al_p, lam_param(cfg), approximator_params=params)
    w, e, q_old = np.zeros(6), np.zeros(6), None
    n = 0
    fresh = True
    for q, t in enumerate(case['seq']):
        s, a, r, ns, ab, la = t
        if fresh:
            agent.next_action = None
            agent.episode_start(np.array([s]), {})
            e, q_old = np.zeros(6), None
        agent.fit(one_c(t))
        a_next = int(agent.draw_action(np.array([ns]))[0][0])
        agent.next_action = np.array([a_next]) if not la else None
        n += 1
        lam = lam_at(cfg, n)
        al = .25 if cfg['rate'] == 'const' else .5 / n
        f = phi_ref(s, a)
        qc = w @ f
        qn = 0. if ab else w @ phi_ref(ns, a_next)
        if cfg['alg'] == 'TrueOnlineSARSALambda':
            if q_old is None:
                q_old = qc
            e = GAMMA * lam * e + al * (1. - GAMMA * lam * (e @ f)) * f
            d = r + GAMMA * qn - q_old
            w = w + d * e + al * (q_old - qc) * f
            q_old = qn
        else:
            e = GAMMA * lam * e + f
            w = w + al * (r + GAMMA * qn - qc) * e
        for p in PTS:
            for b in range(2):
                got = float(np.asarray(agent.Q.predict(np.array([p]), np.array([b]))).reshape(-1)[0])
                expect(abs(got - w @ phi_ref(p, b)) < 1e-7 * max(1, abs(got)), 'after transition', q, t, 'value at', p, b, ':', got, 'expected',
                       w @ phi_ref(p, b))
        st.step()
        st.state(cfg['alg'], lam, cfg['rate'], str(np.round(w, 6)), str(np.round(e, 6)))
        fresh = bool(la)
    st.outcome(str(np.round(w, 6)))
    st.trace()


def sequences(L, n_ends=2):
    """Chained steps over the states: all actions and all placements of episode ends."""
    for acts in itertools.product([0, 1], repeat=L):
        for ends in itertools.product([0, 1, 2], repeat=n_ends):
            s = 0
            seq = []
            for i, a in enumerate(acts):
                e = ends[i - 1] if 1 <= i <= n_ends else 0
                ns = (s + 1 + a) % S
                seq.append((s, a, [1., -1., .5][(s + 2 * a) % 3], ns, int(e == 1), int(e > 0)))
                s = (i % 2) if e else ns
            yield seq


def tab_cases(tier):
    for alg in ('SARSALambda', 'QLambda'):
        for trace in ('replacing', 'accumulating'):
            for lam in (0., .5, 1., 'decay'):
                for r in ('const', 'pair'):
                    cfg = {'alg': alg, 'trace': trace, 'lam': lam, 'rate': r}
                    for seq in sequences(4 if tier == 'quick' else 6, 3 if tier == 'quick' else 4):
                        yield {'cfg': cfg, 'seq': seq, 'script': [1, 0, 0]}
                    al = [(s, a, [1., -2.][(s + a) % 2], ns, ab, la) for s in (0, 1) for a in (0, 1) for ns in (0, 2)
                          for ab, la in ((0, 0), (1, 1), (0, 1))]
                    for seq in itertools.product(al, al[::2], al[::3] if tier == 'quick' else al):
                        if lam not in (1., 'decay'):
                            yield {'cfg': cfg, 'seq': seq, 'script': [0, 1]}


def lin_cases(tier):
    for alg in ('SARSALambdaContinuous', 'TrueOnlineSARSALambda'):
        for lam in (0., .5, 1., 'decay'):
            for r in ('const', 'global'):
                cfg = {'alg': alg, 'lam': lam, 'rate': r}
                for seq in sequences(3 if tier == 'quick' else 5, 2 if tier == 'quick' else 4):
                    for scr in ([1, 0, 0], [0, 1]):
                        yield {'cfg': cfg, 'script': scr, 'seq': [(float(s), a, rr, float(ns), ab, la)
                                                                  for s, a, rr, ns, ab, la in seq]}


FAMILIES = [
    Family('tabular', tab_cases, run_tab, 'chained sequences of 4 (6) steps with all actions and episode ends in 3 (4) '
           'places, and all triples over a transition alphabet; lambda in {0, .5, 1} or decaying, both traces, two rates'),
    Family('linear', lin_cases, run_lin, 'chained sequences of 3 (5) steps; lambda in {0, .5, 1}; values compared on the '
           'whole state lattice'),
]
