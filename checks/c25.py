"""C25: running statistics and observation preprocessors, every interleaving of updates, calls and resets."""
import itertools
import math

import numpy as np
import torch

from mushroom_rl.core import MDPInfo
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.running_stats import RunningAveragedWindow, RunningExpWeightedAverage, RunningStandardization
from mushroom_rl.rl_utils.spaces import Box
from mc.harness import Family, expect

ASSUMPTIONS = ['running standardization starts from one pseudo-observation of mean zero and unit deviation, as implemented',
               'the moving window starts with its initial value (zero by default) as its first element, as implemented',
               'min-max preprocessing is claimed for one-dimensional observation spaces',
               'once the minimum learning rate is active only the mean is claimed']

DATA = {(1,): [[2.], [-1.], [.5], [4.]],
        (2,): [[2., -3.], [-1., 0.], [.5, 8.], [4., 4.]],
        (2, 2): [[[2., -3.], [1., 0.]], [[-1., 0.], [5., 2.]], [[.5, 8.], [-2., 1.]], [[4., 4.], [0., 3.]]]}
# operations: an index = update with one datum; a tuple = update with a batch; 'r' = reset; 'q' = query twice
OPS = [0, 1, 2, (0, 1), (2, 3, 1, 0), 'r', 'q']


def to(x, backend):
    return torch.tensor(x, dtype=torch.float64) if backend == 'torch' else np.array(x, dtype=float)


def npy(x):
    return x.detach().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


def flat(x):
    return [float(v) for v in npy(x).reshape(-1)]


def close(a, b, tol=1e-5):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


class RefStand:
    def __init__(self, shape, alpha):
        self.k = int(np.prod(shape))
        self.alpha = alpha
        self.reset()

    def reset(self):
        self.m = [0.] * self.k
        self.rows = []
        self.floor = False
        self.n = 1

    def update(self, rows):
        self.n += len(rows)
        a = len(rows) / self.n
        if a < self.alpha:
            self.floor = True
        a = max(a, self.alpha)
        self.m = [(1 - a) * m + a * sum(r[i] for r in rows) / len(rows) for i, m in enumerate(self.m)]
        self.rows += rows

    def std(self):
        if self.floor:
            return None
        # sum of squares about the mean of the data and the pseudo-observation 0, plus its unit deviation
        out = []
        for i in range(self.k):
            xs = [0.] + [r[i] for r in self.rows]
            mu = sum(xs) / len(xs)
            out.append(math.sqrt((1. + sum((x - mu) ** 2 for x in xs)) / self.n))
        return out


class RefExp:
    def __init__(self, k, alpha, init):
        self.a, self.init, self.k = alpha, init, k
        self.reset()

    def reset(self):
        self.v = [0.] * self.k if self.init is None else list(self.init)

    def update(self, rows):
        for r in rows:
            self.v = [(1 - self.a) * v + self.a * x for v, x in zip(self.v, r)]


class RefWin:
    def __init__(self, k, w, init):
        self.w, self.init, self.k = w, init, k
        self.reset()

    def reset(self):
        self.b = [[0.] * self.k if self.init is None else list(self.init)]

    def update(self, rows):
        self.b = (self.b + rows)[-self.w:]

    @property
    def v(self):
        return [sum(r[i] for r in self.b) / len(self.b) for i in range(self.k)]


def run_stats(case, st):
    shape, backend, kind = tuple(case['shape']), case['b'], case['kind']
    data = DATA[shape]
    k = int(np.prod(shape))
    init = data[3] if case['init'] else None
    given = None if init is None else to(init, backend)
    seen = []
    if kind == 'stand':
        obj, ref = RunningStandardization(shape, backend, alpha=case['p']), RefStand(shape, case['p'])
    elif kind == 'exp':
        obj = RunningExpWeightedAverage(shape, case['p'], backend, given)
        ref = RefExp(k, case['p'], None if init is None else flat(np.array(init)))
    else:
        obj = RunningAveragedWindow(shape, case['p'], backend, given)
        ref = RefWin(k, case['p'], None if init is None else flat(np.array(init)))

    def check():
        if kind == 'stand':
            expect(close(obj.mean, ref.m), 'mean', flat(obj.mean), 'expected', ref.m)
            s = ref.std()
            if s is not None:
                expect(close(obj.std, s), 'deviation', flat(obj.std), 'expected', s)
        else:
            expect(close(obj.mean, ref.v), 'mean', flat(obj.mean), 'expected', ref.v)
        seen.append((obj.mean, flat(obj.mean)))
    check()
    for op in case['ops']:
        if op == 'r':
            if kind == 'stand' or not case['init']:
                obj.reset()
                ref.reset()
            else:
                obj.reset(to(init, backend))
                ref.reset()
        elif op == 'q':
            pass
        else:
            rows = [data[op]] if isinstance(op, int) else [data[i] for i in op]
            x = to(rows[0] if isinstance(op, int) else rows, backend)
            keep = npy(x).copy()
            obj.update_stats(x)
            ref.update([flat(np.array(r)) for r in rows])
            expect(np.array_equal(npy(x), keep), 'the data was changed')
            x[...] = 1e6   # the caller's array may change afterwards: only for statistics that are computed, not kept
            if kind == 'win':
                x[...] = to(keep.tolist(), backend)
        check()
        check()
        st.step()
        st.state(kind, backend, shape, case['p'], case['init'], str(ref.__dict__))
    for m, f in seen:
        expect(flat(m) == f, 'a mean read earlier changed from', f, 'to', flat(m))
    if given is not None:
        expect(flat(given) == flat(np.array(init)), 'the initial value given by the caller was changed')
    st.outcome(kind, tuple(np.round(ref.m if kind == 'stand' else ref.v, 5)))
    st.trace()


def seqs(n):
    for m in range(1, n + 1):
        yield from itertools.product(OPS, repeat=m)


def cases_stats(tier):
    th = tier == 'thorough'
    n = 5 if th else 4
    for b in ('numpy', 'torch'):
        for shape in DATA:
            for kind, ps in (('stand', (1e-32, .3)), ('exp', (.1, .7)), ('win', (1, 2, 3))):
                for p in ps:
                    for init in ((False,) if kind == 'stand' else (False, True)):
                        d = n if shape == (2,) else n - 1
                        for ops in seqs(d):
                            if len(ops) == d or shape == (2,):
                                if len(ops) >= 4 and b == 'torch' and not th:
                                    continue
                                yield dict(b=b, shape=shape, kind=kind, p=p, init=init, ops=ops)


# ---------------------------------------------------------------- preprocessors
BOUNDS = {'all': [(-1., 3.), (0., 4.)], 'first': [(-1., 3.), (-np.inf, np.inf)], 'second': [(-np.inf, np.inf), (0., 4.)],
          'huge': [(-1e25, 1e25), (0., 4.)], 'half': [(0., np.inf), (-2., 2.)], 'one': [(-1., 3.)], 'three': [(-1., 3.), (-np.inf, np.inf), (0., 4.)], 'none': [(-np.inf, np.inf)] * 2}
OBS = [[2., -3., 1.], [-1., 0., 4.], [.5, 30., -2.], [4., 4., 8.]]


def run_pre(case, st):
    b, kind, bd = case['b'], case['kind'], BOUNDS[case['bd']]
    d = len(bd)
    low, high = np.array([x for x, _ in bd]), np.array([y for _, y in bd])
    l0, h0 = low.copy(), high.copy()
    info = MDPInfo(Box(low, high), Box(-np.ones(1), np.ones(1)), .9, 10)
    cls = StandardizationPreprocessor if kind == 'stand' else MinMaxPreprocessor
    if kind == 'minmax' and case['bd'] == 'none':
        try:
            cls(info, b)
        except AssertionError:
            st.step()
            st.trace()
            return
        expect(False, 'min-max preprocessing without any limited observation was accepted')
    pre = cls(info, b, clip_obs=case['clip'])
    ref = RefStand((d,), 1e-32)

    def want(o):
        s = ref.std()
        out = []
        for i in range(d):
            lo, hi = bd[i]
            if kind == 'minmax' and abs(lo) < 1e20 and abs(hi) < 1e20:
                out.append((o[i] - (hi + lo) / 2) / ((hi - lo) / 2))
            else:
                out.append(max(-case['clip'], min(case['clip'], (o[i] - ref.m[i]) / s[i])))
        return out
    kept = []
    for op in case['ops']:
        o = OBS[op[1]][:d]
        x = to(o, b)
        if op[0] == 'u':
            pre.update(x)
            ref.update([o])
        else:
            y = pre(x)
            expect(close(y, want(o)), kind, 'of', o, 'is', flat(y), 'expected', want(o))
            expect(tuple(y.shape) == (d,), 'shape', tuple(y.shape))
            kept.append((y, flat(y)))
        expect(flat(x) == o, 'the observation was changed to', flat(x))
        st.step()
        st.state(b, kind, case['bd'], case['clip'], str(ref.rows))
    for y, f in kept:
        expect(flat(y) == f, 'an observation returned earlier changed')
    expect(np.array_equal(low, l0) and np.array_equal(high, h0), 'the observation space was changed')
    st.outcome(tuple(round(v, 5) for _, f in kept for v in f))
    st.trace()


def cases_pre(tier):
    th = tier == 'thorough'
    ops = [(o, i) for o in 'uc' for i in range(4)]
    for b in ('numpy', 'torch'):
        for kind in ('stand', 'minmax'):
            for bd in BOUNDS:
                for clip in (10., .8):
                    for q in itertools.product(ops, repeat=4 if th else 3):
                        yield dict(b=b, kind=kind, bd=bd, clip=clip, ops=q)


FAMILIES = [
    Family('running_statistics', cases_stats, run_stats, 'standardization, exponential and window averages, numpy and torch, '
           'three data shapes, every sequence of single/batch updates, resets and queries of length 3-4 (4-5)', chunk=128),
    Family('preprocessors', cases_pre, run_pre, 'standardization and min-max, 8 bound patterns, numpy and torch, two clips, '
           'every sequence of 3 (4) updates and calls over 4 observations', chunk=128),
]
