"""C15: parameter schedules."""
import itertools

import numpy as np

from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter, DecayParameter, to_parameter
from mushroom_rl.rl_utils.variance_parameters import (VarianceIncreasingParameter, VarianceDecreasingParameter,
                                                      WindowedVarianceIncreasingParameter)
from mc.harness import Family, expect

ASSUMPTIONS = ['a schedule of size one ignores the index it is given', 'variance-dependent parameters: the published '
               'estimators recomputed from the complete list of targets of the entry']


def idx_arrays(i):
    return tuple(np.array([x]) for x in i)


def make(cfg):
    k, size = cfg['kind'], tuple(cfg['size'])
    if k == 'const':
        return Parameter(cfg['v'], min_value=cfg.get('lo'), max_value=cfg.get('hi'), size=size)
    if k == 'linear':
        return LinearParameter(cfg['v'], cfg['th'], cfg['n'], size=size)
    return DecayParameter(cfg['v'], exp=cfg['exp'], min_value=cfg.get('lo'), max_value=cfg.get('hi'), size=size)


def ref(cfg, n):
    k = cfg['kind']
    if k == 'const':
        v = cfg['v']
        lo, hi = cfg.get('lo'), cfg.get('hi')
    elif k == 'linear':
        d = cfg['th'] - cfg['v']
        v = cfg['v'] + d * n / cfg['n']
        lo, hi = (None, cfg['th']) if d >= 0 else (cfg['th'], None)
    else:
        v = cfg['v'] / max(n, 1) ** cfg['exp']
        lo, hi = cfg.get('lo'), cfg.get('hi')
    if lo is not None:
        v = max(v, lo)
    if hi is not None:
        v = min(v, hi)
    return v


def scalar(x):
    a = np.asarray(x, dtype=float)
    expect(a.size == 1, 'the value of one entry has size', a.size)
    return float(a.reshape(-1)[0])


def run(case, st):
    cfg = case['cfg']
    size = tuple(cfg['size'])
    p = make(cfg)
    expect(to_parameter(p) is p, 'a parameter is its own parameter')
    expect(tuple(p.shape) == size and p.initial_value == cfg['v'], 'shape or initial value')
    single = int(np.prod(size)) == 1
    cnt = {}
    entries = [tuple(e) for e in itertools.product(*[range(d) for d in size])]
    for q, (op, e) in enumerate(case['ops']):
        e = tuple(e)
        key = () if single else e
        args = () if single and q % 2 else idx_arrays(e)
        if op == 'u':
            p.update(*args)
            cnt[key] = cnt.get(key, 0) + 1
        elif op == 'c':
            v = scalar(p(*args))
            cnt[key] = cnt.get(key, 0) + 1
            expect(abs(v - ref(cfg, cnt[key])) < 1e-12, 'call', q, 'of', e, 'gives', v, 'expected', ref(cfg, cnt[key]))
        for x in entries:
            for _ in range(2 if op == 'r' else 1):
                v = scalar(p.get_value(*(() if single and q % 2 else idx_arrays(x))))
                n = cnt.get(() if single else x, 0)
                expect(abs(v - ref(cfg, n)) < 1e-12, 'after operation', q, 'entry', x, 'is', v, 'expected', ref(cfg, n),
                       '(%d updates)' % n)
        st.step()
        st.state(str(cfg), str(sorted(cnt.items())))
    st.outcome(str(cfg), str(sorted(cnt.items())))
    st.trace()


CFGS = [{'kind': 'const', 'v': .5}, {'kind': 'const', 'v': 2., 'lo': 0., 'hi': 1.}, {'kind': 'const', 'v': 0., 'lo': .25},
        {'kind': 'linear', 'v': 1., 'th': 0., 'n': 3}, {'kind': 'linear', 'v': 0., 'th': 1., 'n': 2},
        {'kind': 'linear', 'v': .5, 'th': .5, 'n': 2}, {'kind': 'linear', 'v': -1., 'th': 2., 'n': 4},
        {'kind': 'linear', 'v': 1., 'th': .25, 'n': 1}, {'kind': 'linear', 'v': -2., 'th': 3., 'n': 1},
        {'kind': 'decay', 'v': 1., 'exp': 1.}, {'kind': 'decay', 'v': 2., 'exp': .5, 'lo': 1.2},
        {'kind': 'decay', 'v': 2., 'exp': 2., 'hi': 1.}, {'kind': 'decay', 'v': 1., 'exp': 0.},
        {'kind': 'decay', 'v': .5, 'exp': 1., 'lo': .2, 'hi': .4}]
SIZES = {(1,): [(0,), (0,)], (3,): [(0,), (2,)], (2, 2): [(0, 1), (1, 0)], (1, 1): [(0, 0), (0, 0)]}


def cases(tier):
    L = 4 if tier == 'quick' else 6
    for cfg in CFGS:
        for size, es in SIZES.items():
            letters = [(o, e) for o in 'ucr' for e in (es if es[0] != es[1] else es[:1])]
            for n in range(1, L + 1):
                for ops in itertools.product(letters, repeat=n):
                    if sum(o[0] == 'r' for o in ops) <= 1:
                        yield {'cfg': dict(cfg, size=size), 'ops': ops}


# ---------------------------------------------------------------- variance-dependent
def var_make(cfg):
    c = {'inc': VarianceIncreasingParameter, 'dec': VarianceDecreasingParameter,
         'win': WindowedVarianceIncreasingParameter}[cfg['kind']]
    kw = {'window': cfg['window']} if cfg['kind'] == 'win' else {}
    return c(cfg['v'], exponential=cfg['exponential'], min_value=cfg.get('lo'), tol=cfg['tol'], size=tuple(cfg['size']), **kw)


def var_ref(cfg, hist):
    """Value after the history [(target, factor), ...] of one entry."""
    w, value = 0., cfg['v']
    for n, (x, f) in enumerate(hist):
        past = [h[0] for h in hist[:n]]
        if n < 2:
            value = cfg['v']
        else:
            if cfg['kind'] == 'win':
                var = float(np.var(past[-cfg['window']:]))
            else:
                var = float(np.var(past, ddof=1))
            s = var * w
            if cfg['kind'] == 'dec':
                value = np.exp(s * np.log(.5) / cfg['tol']) if cfg['exponential'] else 1. / (s + cfg['tol'])
            else:
                value = 1 - np.exp(s * np.log(.5) / cfg['tol']) if cfg['exponential'] else s / (s + cfg['tol'])
        w = (1. - f * value) ** 2 * w + (f * value) ** 2
    if cfg.get('lo') is not None:
        value = max(value, cfg['lo'])
    return value


def run_var(case, st):
    cfg = case['cfg']
    size = tuple(cfg['size'])
    single = int(np.prod(size)) == 1
    p = var_make(cfg)
    hist = {}
    entries = [tuple(e) for e in itertools.product(*[range(d) for d in size])]
    for q, (op, e, x, f) in enumerate(case['ops']):
        e = tuple(e)
        key = () if single else e
        args = idx_arrays(e)
        kw = {'target': x} if f == 1. else {'target': x, 'factor': f}
        hist.setdefault(key, []).append((x, f))
        if op == 'c':
            v = scalar(p(*args, **kw))
            expect(abs(v - var_ref(cfg, hist[key])) < 1e-7, 'call', q, v, 'expected', var_ref(cfg, hist[key]))
        else:
            p.update(*(() if single else args), **kw)
        for y in entries:
            k = () if single else y
            v = scalar(p.get_value(*idx_arrays(y)))
            r = var_ref(cfg, hist.get(k, []))
            expect(abs(v - r) < 1e-7, 'after operation', q, 'entry', y, 'is', v, 'expected', r)
        st.step()
        st.state(str(cfg), str(sorted(hist.items())))
    st.outcome(str(cfg), str(sorted(hist.items())))
    st.trace()


def var_cases(tier):
    L = 4 if tier == 'quick' else 5
    for kind, expo, size in itertools.product(['inc', 'dec', 'win'], [False, True], [(1,), (2, 2), (3,)]):
        es = {(1,): [(0,)], (2, 2): [(0, 1), (1, 1)], (3,): [(2,), (0,)]}[size]
        for lo, tol in ((None, 1.), (.3, .5)):
            cfg = {'kind': kind, 'exponential': expo, 'size': size, 'v': .5, 'tol': tol}
            if kind == 'win':
                cfg['window'] = 3
            if lo is not None:
                cfg['lo'] = lo
            letters = [(o, e, x, f) for (o, f) in (('c', 1.), ('u', .5)) for e in es for x in (-1., 2.)]
            for ops in itertools.product(letters, repeat=3 if len(es) > 1 else L):
                yield {'cfg': cfg, 'ops': list(ops) + [('c', ops[0][1], 1., 1.), ('u', ops[0][1], 0., 1.),
                                                       ('c', ops[0][1], 4., 1.)]}


FAMILIES = [
    Family('schedules', cases, run, 'all interleavings of up to 4 (6) reads, updates and calls over two entries, fourteen '
           'schedules, four sizes'),
    Family('variance', var_cases, run_var, 'all interleavings of 3..4 (5) updates and calls over two entries and two '
           'targets, followed by three more'),
]
