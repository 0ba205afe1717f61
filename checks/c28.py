"""C28: batch value learners: fitted Q-iteration, its double and boosted variants, least-squares policy iteration."""
import itertools

import numpy as np

from mushroom_rl.algorithms.value import FQI, BoostedFQI, DoubleFQI, LSPI
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Dataset, DatasetInfo, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mc.harness import Family, expect

ASSUMPTIONS = ['the double variant learns from two equal halves of the data (an odd last sample is in neither), as the code documents by construction',
               'the boosted variant fits, at each iteration, the difference between the new and the previous targets (the published residual '
               'when the regression is exact on the data)',
               'datasets on which the published policy iteration itself cycles are skipped (counted): it has no result there',
               'ties between greedy actions may be broken either way']

NS, NA = 3, 2
XS = np.array([[1., 0., .5], [0., 1., -1.], [1., 1., 2.]])      # what the state looks like
REW = [1., -.5, 2., .25, -2., .75, 3., -1.25, .5, 1.75, -3., 4.]


def rew(k, t):
    return REW[(5 * k + 3 * t[0] + 7 * t[1] + t[2]) % len(REW)]


def mdp(gamma):
    return MDPInfo(Box(-10 * np.ones(3), 10 * np.ones(3)), Discrete(NA), gamma, 100)


def dataset(info, trans, n_fit):
    d = Dataset(DatasetInfo('numpy', None, 100, info.gamma, (3,), float, (1,), int, None),
                n_steps=len(trans))
    for k, (s, a, ss, ab) in enumerate(trans):
        last = bool(ab) or k == len(trans) - 1 or trans[k + 1][0] != ss
        d.append((XS[s], np.array([a]), rew(n_fit, (s, a, ss)), XS[ss], bool(ab), last), {})
    return d


class Avg:
    """An exact averager: predicts the mean target of each state, 0 where nothing was fitted; remembers how it was called."""
    log = []

    def __init__(self, input_shape=None, output_shape=None, **kw):
        self.m = {}

    def fit(self, x, y, w=None, **kw):
        Avg.log.append((np.array(x), np.array(y), dict(kw)))
        g = {}
        for xi, yi in zip(x, np.asarray(y).reshape(-1)):
            g.setdefault(tuple(xi), []).append(float(yi))
        self.m = {k: float(np.mean(v)) for k, v in g.items()}

    def predict(self, x, **kw):
        return np.array([[self.m.get(tuple(r), 0.)] for r in x])


class AvgQ:
    """Vector-output version: one value per action."""

    def __init__(self, input_shape=None, output_shape=None, **kw):
        self.m = {}
        self.n = output_shape[0]

    def fit(self, x, a, y, **kw):
        Avg.log.append((np.array(x), np.array(y), dict(kw)))
        g = {}
        for xi, ai, yi in zip(x, a, np.asarray(y).reshape(-1)):
            g.setdefault((tuple(xi), int(ai[0])), []).append(float(yi))
        self.m = {k: float(np.mean(v)) for k, v in g.items()}

    def predict(self, x, a=None, **kw):
        if a is not None:
            return np.array([self.m.get((tuple(r), int(b[0])), 0.) for r, b in zip(x, a)])
        return np.array([[self.m.get((tuple(r), b), 0.) for b in range(self.n)] for r in x])


class RefModel:
    """Reference of one Q-function: fitted by the exact averager or by least squares on the state vector, action by action."""

    def __init__(self, kind):
        self.kind = kind
        self.q = {}
        self.w = [np.zeros(3) for _ in range(NA)]

    def fit(self, sa, y):
        if self.kind == 'avgq':
            self.q = {k: np.mean([y[i] for i in range(len(y)) if sa[i] == k]) for k in set(sa)}
            return
        for a in range(NA):
            idx = [i for i in range(len(y)) if sa[i][1] == a]
            if not idx:
                continue
            if self.kind == 'avg':
                for s in range(NS):
                    self.q.pop((s, a), None)
                for s in {sa[i][0] for i in idx}:
                    self.q[s, a] = np.mean([y[i] for i in idx if sa[i][0] == s])
            else:
                self.w[a] = np.linalg.lstsq(XS[[sa[i][0] for i in idx]], np.array([y[i] for i in idx]), rcond=None)[0]

    def __call__(self, s, a):
        return self.q.get((s, a), 0.) if self.kind.startswith('avg') else float(XS[s] @ self.w[a])

    def all(self, s):
        return [self(s, a) for a in range(NA)]


def approximator(kind):
    p = dict(input_shape=(3,), n_actions=NA)
    if kind == 'avgq':
        p['output_shape'] = (NA,)
        return AvgQ, p
    p['output_shape'] = (1,)
    return (Avg if kind == 'avg' else LinearApproximator), p


def run_fqi(case, st):
    info = mdp(case['g'])
    alg, kind, iters = case['alg'], case['m'], case['it']
    cls, params = approximator(kind)
    Avg.log = []
    pi = EpsGreedy(Parameter(0.))
    fp = {'extra': 3} if kind == 'avg' else {}
    if alg == 'boosted':
        params['n_models'] = iters
        params['prediction'] = 'sum'
        agent = BoostedFQI(info, pi, cls, n_iterations=iters, approximator_params=params, fit_params=fp, quiet=True)
    elif alg == 'double':
        agent = DoubleFQI(info, pi, cls, n_iterations=iters, approximator_params=params, fit_params=fp, quiet=True)
    else:
        agent = FQI(info, pi, cls, n_iterations=iters, approximator_params=params, fit_params=fp, quiet=True)
    nm = {'fqi': 1, 'double': 2, 'boosted': iters}[alg]
    ref = [RefModel(kind) for _ in range(nm)]
    first = True
    prev = None
    for f, trans in enumerate(case['data']):
        d = dataset(info, trans, f)
        before = [np.array(x) for x in d.parse(to='numpy')]
        agent.fit(d)
        expect(all(np.array_equal(x, y) for x, y in zip(before, d.parse(to='numpy'))), 'fitting changed the dataset')
        half = len(trans) // 2
        parts = [trans[:half], trans[half:2 * half]] if alg == 'double' else [trans]
        offs = [0, half]
        for it in range(iters):
            tg = []
            for i, part in enumerate(parts):
                y = []
                for k, (s, a, ss, ab) in enumerate(part):
                    r = rew(f, (s, a, ss))
                    if first or ab:
                        y.append(r)
                    elif alg == 'fqi':
                        y.append(r + case['g'] * max(ref[0].all(ss)))
                    elif alg == 'double':
                        q = ref[i].all(ss)
                        b = [a_ for a_ in range(NA) if abs(q[a_] - max(q)) < 1e-9]
                        if len(b) > 1 and abs(ref[1 - i](ss, b[0]) - ref[1 - i](ss, b[1])) > 1e-9 and kind == 'lin' and any(q):
                            st.step()
                            return        # numerically tied greedy actions: either target is right
                        y.append(r + case['g'] * ref[1 - i](ss, b[0]))
                    else:
                        y.append(r + case['g'] * max(sum(m(ss, a_) for m in ref[:it]) for a_ in range(NA)))
                tg.append(y)
            first = False
            if alg == 'boosted':
                res = [y - (prev[k] if prev is not None else 0.) for k, y in enumerate(tg[0])]
                prev = tg[0]
                ref[it].fit([(s, a) for s, a, _, _ in trans], res)
            else:
                for i, part in enumerate(parts):
                    ref[i].fit([(s, a) for s, a, _, _ in part], tg[i])
            st.step()
        for s in range(NS):
            for j in range(nm):
                got = agent.approximator.predict(XS[s][None], idx=j) if nm > 1 or alg == 'boosted' else agent.approximator.predict(XS[s][None])
                expect(np.allclose(np.asarray(got, dtype=float).reshape(-1), ref[j].all(s), atol=1e-7), alg, kind, 'Q-function', j, 'state', s, 'after fit', f,
                       np.asarray(got).tolist(), ref[j].all(s))
            tot = np.sum([m.all(s) for m in ref], 0)
            if abs(tot[0] - tot[1]) > 1e-6:
                a = int(agent.draw_action(XS[s], None)[0][0])
                expect(a == int(np.argmax(tot)), 'the policy is greedy in the learned Q-function')
        if kind == 'avg':
            expect(all(l[2] == {'extra': 3} for l in Avg.log), 'fit parameters reach the approximator')
            expect(sum(len(l[1]) for l in Avg.log) == iters * sum(len(p) for p in parts), 'every sample is fitted once per iteration')
            Avg.log = []
        st.state(alg, kind, repr(case['data'][:f + 1]), iters, case['g'])
    st.outcome(alg, kind, iters, tuple(round(m(s, a), 5) for m in ref for s in range(NS) for a in range(NA)))
    st.trace()


SINGLE = [(s, a, ss, ab) for s in range(2) for a in range(NA) for ss in range(2) for ab in (0, 1)]


def fqi_cases(tier):
    th = tier == 'thorough'
    wide = SINGLE + [(2, 0, 0, 0), (0, 1, 2, 0), (2, 1, 2, 1), (1, 0, 2, 0)]
    for alg in ('fqi', 'double', 'boosted'):
        for kind in ('avg', 'lin', 'avgq'):
            for n in ((2, 3, 4) if alg == 'double' else (1, 2, 3)):
                pool = wide if n <= 2 or (th and n == 3) else SINGLE if n == 3 else SINGLE[:8] if not th else SINGLE
                its = (1, 2, 3, 5) if n <= 2 else (2, 3) if n == 3 else (3,)
                if th and n > 2:
                    its = its + (5,)
                seqs = itertools.product(pool, repeat=n) if n <= 2 or th or alg == 'double' else itertools.combinations_with_replacement(pool, n)
                if n == 4 and not th:
                    seqs = (q for q in itertools.product(SINGLE[:8], repeat=4) if q[0] <= q[1] and q[2] <= q[3])
                elif n == 4:
                    seqs = (q for q in itertools.product(SINGLE, repeat=4) if q[0] <= q[1] and q[2] <= q[3])
                elif n == 3 and th and alg != 'double':
                    seqs = itertools.combinations_with_replacement(pool, 3)
                for seq in seqs:
                    for it in its:
                        for g in ((.9,) if n > 1 else (.9, 0., 1.)):
                            yield {'alg': alg, 'm': kind, 'it': it, 'g': g, 'data': [[list(t) for t in seq]]}
            if alg != 'boosted':
                # a second fit continues from the learned function, on other data of any size
                for a, b in itertools.product(SINGLE, repeat=2):
                    one = [list(a), list(SINGLE[3]), list(SINGLE[10]), list(b)]
                    for k in (2, 3, 4):
                        yield {'alg': alg, 'm': kind, 'it': 2, 'g': .9, 'data': [one, [list(b), [1, 1, 0, 0], list(a), [0, 0, 1, 0]][:k]]}


# ---------------------------------------------------------------- least-squares policy iteration
def phi_of(kind, x):
    if kind == 'id':
        return np.asarray(x, dtype=float)
    if kind == 'hot':
        return np.stack([(np.abs(np.asarray(x) - XS[s]).sum(-1) < 1e-9).astype(float) for s in range(NS)], -1)
    return np.stack([np.ones(np.asarray(x).shape[:-1]), np.asarray(x, dtype=float)[..., 2]], -1)


def solve(trans, f, F, g, pol, d):
    """A w = b of the greedy policy pol (next state -> action)."""
    A = np.zeros((NA * d, NA * d))
    b = np.zeros(NA * d)
    for (s, a, ss, ab) in trans:
        x = np.zeros(NA * d)
        x[a * d:(a + 1) * d] = F[s]
        y = np.zeros(NA * d)
        if not ab:
            y[pol[ss] * d:(pol[ss] + 1) * d] = F[ss]
        A += np.outer(x, x - g * y)
        b += x * rew(f, (s, a, ss))
    w = np.linalg.solve(A, b) if np.linalg.matrix_rank(A) == len(A) else np.linalg.pinv(A) @ b
    return A, b, w


def ref_converges(trans, f, F, g, w, eps, d):
    for _ in range(30):
        pol = {ss: int(np.argmax([F[ss] @ w[a * d:(a + 1) * d] for a in range(NA)])) for ss in range(NS)}
        A, b, w2 = solve(trans, f, F, g, pol, d)
        # a tie or a nearly singular system makes the iteration depend on rounding: left to the cycling guard
        if np.linalg.norm(w2 - w) <= eps / 2:
            return True
        if np.linalg.norm(w2 - w) < 2 * eps:
            return False
        sv = np.linalg.svd(A, compute_uv=False)
        if any(1e-13 < v / max(sv[0], 1e-300) < 1e-5 for v in sv):
            return False
        w = w2
        for ss in {t[2] for t in trans}:
            q = [F[ss] @ w[a * d:(a + 1) * d] for a in range(NA)]
            if abs(q[0] - q[1]) < 1e-7:
                return False
    return False


def run_lspi(case, st):
    info = mdp(case['g'])
    kind, eps = case['phi'], case['eps']
    F = phi_of(kind, XS)
    d = F.shape[1]
    pi = EpsGreedy(Parameter(0.))
    ap = dict(input_shape=(d,), output_shape=(NA,), n_actions=NA)
    if kind != 'id':
        ap['phi'] = Features(n_outputs=d, function=lambda x: phi_of(kind, x))
    agent = LSPI(info, pi, approximator_params=ap, epsilon=Parameter(eps) if case.get('param') else eps)
    for f, trans in enumerate(case['data']):
        w0 = agent.approximator.get_weights()
        if not ref_converges(trans, f, F, case['g'], w0.copy(), eps, d):
            st.step()
            st.outcome('skipped')
            return
        ds = dataset(info, trans, f)
        before = [np.array(x) for x in ds.parse(to='numpy')]
        agent.fit(ds)
        expect(all(np.array_equal(x, y) for x, y in zip(before, ds.parse(to='numpy'))), 'fitting changed the dataset')
        w = agent.approximator.get_weights()
        nxt = sorted({t[2] for t in trans})
        choices = []
        for ss in nxt:
            q = [F[ss] @ w[a * d:(a + 1) * d] for a in range(NA)]
            choices.append([a for a in range(NA) if q[a] >= max(q) - 2 * eps * (1 + np.abs(F[ss]).sum())])
        ok = False
        for pol in itertools.product(*choices):
            A, b, ws = solve(trans, f, F, case['g'], dict(zip(nxt, pol)), d)
            ok = ok or np.allclose(w, ws, atol=1e-6 * (1 + np.abs(ws).max()))
        expect(ok, 'the weights do not solve the equations of their greedy policy', w.tolist(), choices)
        for s in range(NS):
            q = [F[s] @ w[a * d:(a + 1) * d] for a in range(NA)]
            expect(np.allclose(np.asarray(agent.approximator.predict(XS[s][None])).reshape(-1), q, atol=1e-8), 'predictions of the learned function')
            if abs(q[0] - q[1]) > 1e-6:
                expect(int(agent.draw_action(XS[s], None)[0][0]) == int(np.argmax(q)), 'the policy is greedy in the learned function')
        st.step(len(nxt))
        st.state(repr(case), f)
        st.outcome(tuple(np.round(w, 5)))
    st.trace()


def lspi_cases(tier):
    cont = [t for t in SINGLE if not t[3]] + [(2, 0, 0, 0), (0, 1, 2, 0), (2, 1, 2, 0), (1, 0, 2, 0)]
    for phi in ('hot', 'id', 'poly'):
        for n in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5)):
            for seq in itertools.combinations_with_replacement(cont if n <= 4 else cont[:9], n):
                for g in (.9, 0.) if n <= 2 else (.9,):
                    for eps in (1e-2,) if n > 2 else (1e-2, 1e-4):
                        yield {'phi': phi, 'g': g, 'eps': eps, 'param': n == 2, 'data': [[list(t) for t in seq]]}
        for a, b in itertools.product(cont, repeat=2):
            base = [list(a), [0, 0, 1, 0], [1, 1, 0, 0], [1, 0, 1, 0], [0, 1, 0, 0]]
            yield {'phi': phi, 'g': .5, 'eps': 1e-2, 'data': [base, base[1:] + [list(b)]]}


def lspi_absorbing_cases(tier):
    yield {'phi': 'hot', 'g': .9, 'eps': 1e-2, 'data': [[[0, 0, 1, 0], [0, 1, 0, 0], [1, 0, 1, 1], [1, 1, 0, 0]]]}


FAMILIES = [
    Family('fitted_iteration', fqi_cases, run_fqi, lambda t: 'plain, double and boosted, over averaging, least-squares and vector-output models; all datasets of up to %s transitions over 2-3 states x 2 actions with absorbing flags, 1-3 and 5 iterations, two successive fits' % ('4' if t == 'thorough' else '3 (4 in part)')),
    Family('lspi', lspi_cases, run_lspi, lambda t: 'all datasets (multisets) of up to %d continuing transitions over 3 states x 2 actions, three feature maps, two successive fits' % (4 if t == 'quick' else 5)),
    Family('lspi_absorbing', lspi_absorbing_cases, run_lspi, 'one dataset with an absorbing transition'),
]
