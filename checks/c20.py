"""C20: tilings, basis functions, tensors, functional features, state-action features."""
import itertools
from fractions import Fraction as Fr
from math import floor

import numpy as np

from mushroom_rl.features import Features, get_action_features
from mushroom_rl.features.basis import FourierBasis, GaussianRBF, PolynomialBasis
from mushroom_rl.features.tensors import ConstantTensor, GaussianRBFTensor, RandomFourierBasis, VonMisesBFTensor
from mushroom_rl.features.tiles import Tiles, VoronoiTiles
from mc.harness import Family, expect

ASSUMPTIONS = ['a point within 1e-12 tile widths of a boundary between two tiles may be given to either of the two (rounding)',
               'a batch of one point may be returned without its batch dimension, as the library does',
               'tensor features are single precision']


def axis_points(r, N):
    lo, hi = r
    w = (hi - lo) / N
    pts = set()
    for k in range(N + 1):
        b = lo + k * w
        pts |= {b, float(np.nextafter(b, -np.inf)), float(np.nextafter(b, np.inf)), b + w / 2, b + w / 4}
    pts |= {lo - w, hi + w, hi, lo, float(np.nextafter(hi, -np.inf)), float(np.nextafter(lo, -np.inf)), (lo + hi) / 2}
    return sorted(pts)


def cells(x, r, N):
    """Admissible cells of coordinate x in one dimension: [] outside."""
    lo, hi = r
    if not lo <= x < hi:
        return []
    q = Fr(N) * (Fr(x) - Fr(lo)) / (Fr(hi) - Fr(lo))
    tol = Fr(1, 10 ** 12)
    return sorted({min(max(floor(q + d), 0), N - 1) for d in (-tol, 0, tol)})


def run_tiles(case, st):
    rng, N, comp, dim = case['r'], case['N'], case['comp'], case['dim']
    multi = not np.isscalar(rng[0])
    ranges = rng if multi else [rng]
    Ns = N if isinstance(N, list) else [N] * len(ranges)
    tiling = Tiles(rng, N, comp) if comp is not None else Tiles(rng, N)
    size = int(np.prod(Ns))
    expect(tiling.size == size, 'size', tiling.size, 'expected', size)
    phi = Features(tilings=tiling)
    expect(phi.size == size, 'features size', phi.size)
    cols = comp if comp is not None else list(range(len(ranges)))
    seen = {}
    pts = []
    grids = [axis_points(r, n) for r, n in zip(ranges, Ns)]
    if len(grids) > 1:
        grids = [g[::case['stride']] + [g[-1]] for g in grids]
    for p in itertools.product(*grids):
        x = np.full(dim, 77.)
        x[cols] = p
        pts.append(x)
        idx = tiling(x)
        adm = list(itertools.product(*[cells(v, r, n) for v, r, n in zip(p, ranges, Ns)]))
        f = np.asarray(phi(x))
        expect(f.shape == (size,), 'shape', f.shape)
        ci = phi.compute_indexes(x)
        if not adm:
            expect(idx is None, 'point', p, 'outside the range activates', idx)
            expect(not f.any() and len(ci) == 0, 'point', p, 'outside: features', f.tolist(), ci)
            continue
        expect(idx is not None and 0 <= int(idx) < size, 'point', p, 'inside the range activates', idx, 'of', size)
        idx = int(idx)
        expect(f[idx] == 1. and np.sum(f != 0) == 1, 'point', p, 'features', f.tolist(), 'tile', idx)
        expect([int(i) for i in ci] == [idx], 'point', p, 'indexes', ci)
        if len(adm) == 1:
            if idx in seen:
                expect(seen[idx] == adm[0], 'tile', idx, 'is used for cells', seen[idx], 'and', adm[0])
            seen[idx] = adm[0]
        else:
            expect(idx not in seen or seen[idx] in adm, 'point', p, 'in tile', idx, 'of cell', seen.get(idx), 'not in', adm)
        st.step()
    expect(len(set(seen.values())) == len(seen), 'a cell has two tiles', seen)
    b = np.asarray(phi(np.array(pts)))
    ref = np.array([phi(x) for x in pts])
    expect(b.shape == ref.shape and np.array_equal(b, ref), 'batch differs from single points')
    cb = phi.compute_indexes(np.array(pts))
    expect([[int(i) for i in c] for c in cb] == [[int(i) for i in phi.compute_indexes(x)] for x in pts], 'indexes of a batch')
    st.state(str(case))
    st.outcome(tuple(sorted(seen)))
    st.trace()


def cases_tiles(tier):
    th = tier == 'thorough'
    R = [[0., 1.], [-1., 1.], [0., .3], [-1.2, .6], [-.07, .07], [10., 11.], [0., 7.], [-np.pi, np.pi]]
    NM = 12 if th else 6
    for r in R:
        for n in range(1, NM + 1):
            yield dict(r=r, N=n, comp=None, dim=1, stride=1)
            yield dict(r=[r], N=[n], comp=[1], dim=3, stride=1)
    R2 = R if th else R[:5]
    for r, s in itertools.product(R2, repeat=2):
        for n, m in itertools.product((1, 2, 3), repeat=2):
            yield dict(r=[r, s], N=[n, m], comp=None, dim=2, stride=2)
            yield dict(r=[r, s], N=[n, m], comp=[2, 0], dim=3, stride=3)
        yield dict(r=[r, s], N=3, comp=None, dim=2, stride=2)
    for n in itertools.product((1, 2, 3), repeat=3):
        yield dict(r=[[0., 1.], [-1., 1.], [0., .3]], N=list(n), comp=None, dim=3, stride=5)
        yield dict(r=[[0., 1.], [-1., 1.], [0., .3]], N=list(n), comp=[3, 1, 0], dim=4, stride=5)


# ---------------------------------------------------------------- generated tilings and lists of tilings
def run_gen(case, st):
    low, high, N, T, uni = np.array(case['low']), np.array(case['high']), case['N'], case['T'], case['uni']
    d = len(low)
    l0, h0 = low.copy(), high.copy()
    tl = Tiles.generate(T, list(N), low, high, uniform=uni)
    if T == -1:
        m = max(np.ceil(np.log2(4 * d)), np.ceil(np.log2(max(N))))
        T = int(m ** 2)
    expect(len(tl) == T, 'number of tilings', len(tl), 'expected', T)
    phi = Features(tilings=tl)
    size = int(np.prod(N))
    expect(phi.size == T * size, 'size', phi.size)
    w = (high - low) / (np.array(N) - (T - 1) / T)
    shift = np.ones(d, int) if uni else 2 * np.arange(d) + 1
    seen = [dict() for _ in range(T)]
    pts = []
    K = case['K']
    axis = [np.array([l + (h - l) * (k + f) / K for k in range(K) for f in (.013, .507)]) for l, h in zip(low, high)]
    for p in itertools.product(*axis):
        x = np.array(p)
        pts.append(x)
        f = np.asarray(phi(x))
        act = [int(i) for i in np.flatnonzero(f)]
        expect(np.all(f[act] == 1.), 'features', f.tolist())
        expect(len(act) == T, 'point', p, 'of the range activates', len(act), 'tiles of', T, 'tilings')
        expect([int(i) for i in phi.compute_indexes(x)] == act, 'indexes', phi.compute_indexes(x), act)
        for i in range(T):
            expect(i * size <= act[i] < (i + 1) * size, 'tiling', i, 'activates', act[i])
            expect(int(tl[i](x)) == act[i] - i * size, 'tile of tiling', i)
            v = (i * shift) % T
            xm = low + (-T + 1 + v) / T * w
            q = (x - xm) / w
            if np.any(np.abs(q - np.round(q)) < 1e-9):
                continue
            c = tuple(int(z) for z in np.floor(q))
            k = act[i]
            expect(seen[i].setdefault(k, c) == c, 'tiling', i, 'tile', k, 'covers cells', seen[i][k], 'and', c)
        st.step()
    for i in range(T):
        expect(len(set(seen[i].values())) == len(seen[i]), 'tiling', i, ': a cell has two tiles')
    b = np.asarray(phi(np.array(pts)))
    expect(b.shape == (len(pts), T * size) and np.array_equal(b, np.array([phi(x) for x in pts])), 'batch of tilings')
    expect(np.array_equal(low, l0) and np.array_equal(high, h0), 'the range was changed')
    out = np.asarray(phi(high + 10 * (high - low)))
    expect(not out.any(), 'far outside the range', out.tolist())
    st.state(str(case))
    st.trace()


def cases_gen(tier):
    th = tier == 'thorough'
    for T in ((1, 2, 3, 4, 8, -1) if th else (1, 2, 3, -1)):
        for uni in (False, True):
            for N in ((1,), (2,), (3,), (5,)):
                yield dict(low=[-1.], high=[.5], N=N, T=T, uni=uni, K=24)
            for N in itertools.product((1, 2, 3, 4), repeat=2):
                if T != -1 or th or N in ((2, 3), (4, 1)):
                    yield dict(low=[-1., 0.], high=[.5, .07], N=N, T=T, uni=uni, K=8)
            if T != -1:
                yield dict(low=[-1., 0., 3.], high=[.5, .07, 4.], N=(2, 3, 2), T=T, uni=uni, K=4)


# ---------------------------------------------------------------- lists of tilings of different ranges and sizes
POOL = [([0., 1.], 2), ([0., 3.], 3), ([2., 4.], 1), ([-1., .5], 4), ([1., 2.], 2)]


def run_list(case, st):
    spec = [POOL[i] for i in case['t']]
    tl = [Tiles([r], [n]) for r, n in spec]
    phi = Features(tilings=tl if len(tl) > 1 or case['list'] else tl[0])
    size = sum(n for _, n in spec)
    expect(phi.size == size, 'size', phi.size, 'expected', size)
    pts = [[v] for v in (-2., -.9, .1, .4, .6, .9, 1.1, 1.6, 2.2, 2.9, 3.5, 5.)]
    want = []
    for (v,) in pts:
        act, off = [], 0
        for r, n in spec:
            act += [off + c for c in cells(v, r, n)]
            off += n
        want.append(act)
        f = np.asarray(phi(np.array([v])))
        expect(f.shape == (size,) and np.array_equal(f, [float(i in act) for i in range(size)]), 'features of', v, f.tolist(), 'active', act)
        got = [int(i) for i in phi.compute_indexes(np.array([v]))]
        expect(got == act, 'indexes of', v, got, 'expected', act)
        st.step()
        st.state(str(case), v)
    got = [[int(i) for i in c] for c in phi.compute_indexes(np.array(pts))]
    expect(got == want, 'indexes of a batch', got)
    b = np.asarray(phi(np.array(pts)))
    expect(b.shape == (len(pts), size) and all(np.flatnonzero(r).tolist() == w for r, w in zip(b, want)), 'features of a batch')
    st.outcome(tuple(case['t']))
    st.trace()


def cases_list(tier):
    for k in range(1, 4 if tier == 'quick' else 5):
        for t in itertools.product(range(len(POOL)), repeat=k):
            for l in ((True, False) if k == 1 else (True,)):
                yield dict(t=t, list=l)


# ---------------------------------------------------------------- mixed lists and Voronoi
def run_voronoi(case, st):
    prot = np.array(case['p'], dtype=float)
    v = VoronoiTiles(prot)
    t = Tiles([[0., 2.], [0., 2.]], [2, 3])
    expect(v.size == len(prot), 'size', v.size)
    phi = Features(tilings=[v, t, v])
    expect(phi.size == 2 * len(prot) + 6, 'size', phi.size)
    pts = [np.array(p, dtype=float) for p in itertools.product((-.6, 0., .4, 1., 2.5), repeat=2)]
    for x in pts:
        d = [sum((a - b) ** 2 for a, b in zip(x, q)) for q in case['p']]
        i = int(v(x))
        expect(abs(d[i] - min(d)) < 1e-12, 'point', x.tolist(), 'in cell', i, 'distances', d)
        f = np.asarray(phi(x))
        e = np.zeros(phi.size)
        e[i] = 1.
        e[len(prot) + 6 + i] = 1.
        j = t(x)
        if j is not None:
            e[len(prot) + j] = 1.
        expect(np.array_equal(f, e), 'features', f.tolist(), 'expected', e.tolist())
        st.step()
    expect(np.array_equal(np.asarray(phi(np.array(pts))), np.array([phi(x) for x in pts])), 'batch')
    st.state(str(case))
    st.trace()


def cases_voronoi(tier):
    g = [(0., 0.), (1., 0.), (0., 1.), (1., 1.), (2., .5), (-1., 2.)]
    for n in range(1, 5 if tier == 'thorough' else 4):
        for p in itertools.permutations(g, n):
            yield dict(p=[list(q) for q in p])


# ---------------------------------------------------------------- basis functions and tensors
def grid(n, low, high, cyclic=False):
    ax, w = [], []
    for k, l, h in zip(n, low, high):
        if k == 1:
            ax.append([(l + h) / 2])
            w.append(abs(h - l) / 2)
        else:
            e = h - abs(h - l) / k if cyclic else h
            ax.append([l + (e - l) * i / (k - 1) for i in range(k)])
            w.append(abs(e - l) / k)
    return ax, np.array(w)


def match(vals, ref, what):
    """Same multiset of values (the order of the functions is free), positions consistent over points."""
    vals, ref = np.array(vals), np.array(ref)     # points x features
    expect(vals.shape == ref.shape, what, 'number of functions', vals.shape, 'expected', ref.shape)
    left = list(range(ref.shape[1]))
    for j in range(vals.shape[1]):
        hit = [k for k in left if np.allclose(vals[:, j], ref[:, k], rtol=1e-4, atol=2e-5)]
        expect(hit, what, 'function', j, 'with values', vals[:, j].tolist(), 'is not one of the expected', ref[:, left].tolist())
        left.remove(hit[0])


def check_features(phi, single, pts, what, tol=1e-12):
    """phi: Features; single: list of callables giving each position's own value."""
    ref = np.array([[float(f(x)) for f in single] for x in pts])
    expect(phi.size == len(single), what, 'size', phi.size, len(single))
    for k, x in enumerate(pts):
        f = np.asarray(phi(x))
        expect(f.shape == (len(single),) and np.allclose(f, ref[k], rtol=tol, atol=tol), what, 'at', x.tolist(), f.tolist(),
               'expected', ref[k].tolist())
        f = np.asarray(phi(np.array([x])))
        expect(f.size == len(single) and np.allclose(f.ravel(), ref[k], rtol=tol, atol=tol), what, 'batch of one')
    for m in range(2, len(pts) + 1):
        b = np.asarray(phi(np.array(pts[:m])))
        expect(b.shape == (m, len(single)) and np.allclose(b, ref[:m], rtol=tol, atol=tol), what, 'batch of', m, b.shape)
    # several arguments are concatenated
    if len(pts[0]) > 1:
        b = np.asarray(phi(np.array(pts)[:, :1], np.array(pts)[:, 1:]))
        expect(b.shape == ref.shape and np.allclose(b, ref, rtol=tol, atol=tol), what, 'of concatenated inputs')


PTS = {1: [np.array([x]) for x in (-.9, -.2, .35, .8)],
       2: [np.array(x) for x in ((-.9, .3), (.2, -.4), (.35, .9), (1.1, .15))],
       3: [np.array(x) for x in ((-.9, .3, .6), (.2, -.4, .25), (.35, .9, -.7), (1.1, .15, .45))]}


def run_basis(case, st):
    kind = case['kind']
    d = case['d']
    dims = case['dims']
    low, high = np.array([-1., -.5, 0.][:d]), np.array([1., 1.5, .8][:d])
    n_in = d if dims is None else 3
    pts = PTS[n_in]
    pick = (lambda x: x) if dims is None else (lambda x: x[dims])
    if kind in ('rbf', 'rbf_tensor', 'von_mises'):
        n, eta = case['n'], case['eta']
        ax, w = grid(n, low, high, kind == 'von_mises')
        w = np.array([wi if k == 1 else (1 + eta) * wi for wi, k in zip(w, n)])
        cents = [np.array(c) for c in itertools.product(*ax)]
        if kind == 'von_mises':
            fn = lambda x, c: np.exp(np.sum(np.cos(2 * np.pi * (pick(x) - c)) / w) - np.sum(1 / w))
        else:
            fn = lambda x, c: np.exp(-np.sum((pick(x) - c) ** 2 / (2 * (w / 3) ** 2)))
        ref = np.array([[fn(x, c) for c in cents] for x in pts])
        if kind == 'rbf':
            bl = GaussianRBF.generate(list(n), low, high, dims, eta)
            match([[float(b(x)) for b in bl] for x in pts], ref, kind)
            check_features(Features(basis_list=bl), bl, pts, kind)
        else:
            cls = GaussianRBFTensor if kind == 'rbf_tensor' else VonMisesBFTensor
            for norm in (False, True):
                tl = cls.generate(list(n), low, high, dims, eta, norm)
                phi = Features(tensor_list=tl)
                rr = ref / ref.sum(1, keepdims=True) if norm else ref
                vals = np.array([np.asarray(phi(x)).reshape(-1) for x in pts])
                match(vals, rr, kind + str(norm))
                pos = [lambda x, k=k: np.asarray(phi(x)).reshape(-1)[k] for k in range(len(cents))]
                check_features(phi, pos, pts, kind, 1e-5)
                both = Features(tensor_list=tl + [ConstantTensor()] + tl)
                pos2 = pos + [lambda x: 1.] + pos
                check_features(both, pos2, pts, kind + ' list', 1e-5)
    elif kind == 'fourier':
        bl = FourierBasis.generate(low, high, case['n'], dims)
        ref = [[np.cos(np.pi * np.dot((pick(x) - low) / (high - low), c))
                for c in itertools.product(range(case['n'] + 1), repeat=d)] for x in pts]
        match([[float(b(x)) for b in bl] for x in pts], ref, kind)
        check_features(Features(basis_list=bl), bl, pts, kind)
    elif kind == 'poly':
        norm = case['norm']
        bl = PolynomialBasis.generate(case['n'], d, *((low, high) if norm else ()))
        nz = (lambda x: (x - (low + high) / 2) / ((high - low) / 2)) if norm else (lambda x: x)
        ex = [e for e in itertools.product(range(case['n'] + 1), repeat=d) if sum(e) <= case['n']]
        expect(len(bl) == len(ex), 'number of monomials', len(bl), 'expected', len(ex))
        match([[float(b(x)) for b in bl] for x in pts], [[float(np.prod(nz(x) ** np.array(e))) for e in ex] for x in pts], kind)
        check_features(Features(basis_list=bl), bl, pts, kind)
    elif kind == 'poly_dims':
        for e in itertools.product(range(3), repeat=2):
            b = PolynomialBasis([2, 0], list(e))
            for x in PTS[3]:
                expect(abs(float(b(x)) - x[2] ** e[0] * x[0] ** e[1]) < 1e-12, 'polynomial', e, 'at', x.tolist(), float(b(x)))
    elif kind == 'random_fourier':
        P = np.array([[.5, -1., .3], [.2, .1, 2.], [.7, 0., -.4]])[:d, :case['n']]
        ph = np.array([0., 1., -2.])[:case['n']]
        tl = [RandomFourierBasis(P, ph, case['nu'])]
        fs = [lambda x, k=k: np.sin(np.dot(x, P[:, k]) / case['nu'] + ph[k]) for k in range(case['n'])]
        if case['bias']:
            tl.append(ConstantTensor())
            fs.append(lambda x: 1.)
        check_features(Features(tensor_list=tl), fs, pts, kind, 1e-5)
        for n in (2, 3, 5):
            g = Features(tensor_list=RandomFourierBasis.generate(case['nu'], n, d, case['bias']))
            expect(g.size == n, 'generated size', g.size, 'asked', n)
            f = np.asarray(g(np.array(pts)))
            expect(f.shape == (len(pts), n), 'generated shape', f.shape)
            expect((np.abs(f - 1.) < 1e-7).all(0).any() == case['bias'], 'constant feature', f.tolist())
    elif kind == 'functional':
        phi = Features(n_outputs=d)
        for x in pts:
            expect(np.array_equal(np.asarray(phi(x)), x), 'identity')
        expect(np.array_equal(np.asarray(phi(np.array(pts))), np.array(pts)) and phi.size == d, 'identity of a batch')
        phi = Features(n_outputs=case['n'], function=lambda x: np.concatenate([x[..., :1] ** (i + 1) for i in range(case['n'])], -1))
        check_features(phi, [lambda x, i=i: x[0] ** (i + 1) for i in range(case['n'])], pts, kind)
    elif kind == 'custom':
        fs = [lambda x, i=i: float(np.sum(x) * i - x[0] ** i) for i in range(case['n'])]
        check_features(Features(basis_list=fs), fs, pts, kind)
    st.step(len(pts))
    st.state(str(case))
    st.outcome(kind)
    st.trace()


def cases_basis(tier):
    th = tier == 'thorough'
    M = 4 if th else 3
    for d in (1, 2, 3):
        dimss = [None] + [list(p) for p in itertools.permutations(range(3), d)]
        for dims in dimss:
            for n in itertools.product(range(1, M + 1), repeat=d):
                if d == 3 and not th and sum(n) > 6:
                    continue
                for eta in ((.25, .6) if th else (.25,)):
                    for kind in ('rbf', 'rbf_tensor', 'von_mises'):
                        yield dict(kind=kind, d=d, dims=dims, n=n, eta=eta)
            for n in range(0, M):
                yield dict(kind='fourier', d=d, dims=dims, n=n)
        for n in range(0, 5 if th else 4):
            for norm in (False, True):
                yield dict(kind='poly', d=d, dims=None, n=n, norm=norm)
        for n in (1, 2, 3):
            yield dict(kind='functional', d=d, dims=None, n=n)
            yield dict(kind='custom', d=d, dims=None, n=n)
            for bias in (False, True):
                for nu in (.5, 2.):
                    yield dict(kind='random_fourier', d=d, dims=None, n=n, bias=bias, nu=nu)
    yield dict(kind='poly_dims', d=3, dims=None)


def run_sa(case, st):
    n, k, acts = case['n'], case['k'], case['a']
    phi = np.array([[1. + i + 10 * j for i in range(k)] for j in range(len(acts))])
    p0 = phi.copy()
    ref = np.zeros((len(acts), n * k))
    for j, a in enumerate(acts):
        ref[j, a * k:(a + 1) * k] = phi[j]
    for j, a in enumerate(acts):
        f = np.asarray(get_action_features(phi[j], np.array([a]), n))
        expect(f.shape == (n * k,) and np.array_equal(f, ref[j]), 'single', f.tolist(), ref[j].tolist())
    f = np.asarray(get_action_features(phi, np.array([[a] for a in acts]), n))
    expect(f.shape == ref.shape and np.array_equal(f, ref), 'batch', f.tolist(), ref.tolist())
    expect(np.array_equal(phi, p0), 'the state features were changed')
    st.step()
    st.state(str(case))
    st.trace()


def cases_sa(tier):
    for n in (1, 2, 3, 4):
        for k in (1, 2, 3):
            for m in range(1, 5 if tier == 'thorough' else 4):
                for a in itertools.product(range(n), repeat=m):
                    yield dict(n=n, k=k, a=a)


FAMILIES = [
    Family('tiles', cases_tiles, run_tiles, '8 ranges x up to 6 (12) tiles in one dimension, 25 (64) range pairs x up to 3x3 '
           'tiles, up to 3x3x3 in three, component selections; every boundary point and its two floating-point neighbours', chunk=4),
    Family('generated_tilings', cases_gen, run_gen, '1 to 3 (8) and automatic number of tilings, 1 to 3 dimensions', chunk=2),
    Family('tiling_lists', cases_list, run_list, 'all lists of up to 3 (4) of 5 tilings of different ranges and sizes; points inside and outside of each', chunk=16),
    Family('voronoi_and_mixed', cases_voronoi, run_voronoi, 'ordered prototype sets of up to 3 (4) of 6 points', chunk=16),
    Family('basis_and_tensors', cases_basis, run_basis, 'radial, von Mises, Fourier, polynomial, random Fourier, functional '
           'and custom features over dimensions, selections, counts, batches of 1 to 4', chunk=8),
    Family('state_action', cases_sa, run_sa, 'up to 4 actions, 3 features, batches of 3 (4)', chunk=64),
]
