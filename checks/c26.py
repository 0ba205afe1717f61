"""C26: every operation of the array backends against nested Python lists."""
import itertools
import math
from collections import deque

import numpy as np
import torch

from mushroom_rl.core import ArrayBackend
from mc.explore import explore, controlled_random
from mc.harness import Family, expect

ASSUMPTIONS = ['kinds of numbers are integer, real and boolean: the default width of reals differs between numpy and torch '
               'and is not compared',
               'operations are queried where both libraries define them (e.g. squeezing a dimension of size one)']

NP, TO, LI = (ArrayBackend.get_array_backend(n) for n in ('numpy', 'torch', 'list'))
BACK = {'numpy': NP, 'torch': TO}
KINDS = {'float': (np.float64, torch.float64), 'single': (np.float32, torch.float32), 'int': (np.int64, torch.int64),
         'bool': (np.bool_, torch.bool)}
VALS = {'float': [-1.5, 0.0, 2.25], 'single': [-1.5, 0.0, 2.25], 'int': [-3, 0, 2], 'bool': [False, True]}


# ---------------------------------------------------------------- nested lists
def build(flat, shape):
    if not shape:
        return flat[0]
    n = 1
    for s in shape[1:]:
        n *= s
    return [build(flat[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def size_of(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def indices(shape):
    return itertools.product(*[range(s) for s in shape])


def get(x, idx):
    for i in idx:
        x = x[i]
    return x


def flat_of(x, shape):
    return [get(x, i) for i in indices(shape)]


def kind(x):
    if isinstance(x, torch.Tensor):
        return 'bool' if x.dtype == torch.bool else 'float' if x.dtype.is_floating_point else 'int'
    x = np.asarray(x)
    return {'f': 'float', 'i': 'int', 'u': 'int', 'b': 'bool'}[x.dtype.kind]


def K(k):
    return 'float' if k == 'single' else k


def make(b, flat, shape, k):
    a = np.array(flat, dtype=KINDS[k][0]).reshape(shape)
    return a if b == 'numpy' else torch.tensor(a.tolist(), dtype=KINDS[k][1]).reshape(shape)


def close(u, v):
    if isinstance(u, float) and math.isnan(u):
        return isinstance(v, float) and math.isnan(v)
    return u == v or abs(u - v) <= 1e-6 * max(1, abs(u))


def check(b, got, shape, flat, k=None, what=''):
    """got is an array of backend b with the given shape and row-major values"""
    ok = isinstance(got, (np.ndarray, np.generic)) if b == 'numpy' else isinstance(got, torch.Tensor)
    expect(ok, what, 'type', type(got))
    expect(tuple(got.shape) == tuple(shape), what, 'shape', tuple(got.shape), 'expected', tuple(shape))
    vals = np.asarray(got).reshape(-1).tolist() if b == 'numpy' else got.reshape(-1).tolist()
    expect(len(vals) == len(flat) and all(close(u, v) for u, v in zip(flat, vals)), what, 'values', vals, 'expected', flat)
    if k is not None:
        expect(kind(got) == k, what, 'kind', kind(got), 'expected', k)


SHAPES = [(1,), (2,), (3,), (4,), (0,), (1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 2), (1, 3), (2, 1, 2), (1, 2, 1), (2, 2, 2),
          (2, 3, 2), (3, 1, 1), (0, 2)]


def arrays(tier):
    """(kind, shape, flat): all values for small arrays, position-identifying values for the others"""
    cap = 4 if tier == 'quick' else 6
    for k in KINDS:
        for sh in SHAPES:
            n = size_of(sh)
            if n <= cap:
                for flat in itertools.product(VALS[k], repeat=n):
                    yield k, sh, list(flat)
            else:
                for rot in range(3):
                    base = [((i * 7 + rot * 5) % 11) - 4 for i in range(n)]
                    if k == 'bool':
                        yield k, sh, [bool((i * 7 + rot) % 3 == 0) for i in range(n)]
                    elif k == 'int':
                        yield k, sh, base
                    else:
                        yield k, sh, [v * .5 for v in base]


def run_unary(case, st):
    k, sh, flat = case['k'], tuple(case['sh']), case['v']
    n = len(flat)
    x = build(flat, sh) if n else []
    for b, B in BACK.items():
        def fresh():
            return make(b, flat, sh, k)
        a = fresh()
        # conversions
        other = 'torch' if b == 'numpy' else 'numpy'
        expect(ArrayBackend.get_array_backend_from(a) is B, 'backend of an array')
        for c in (ArrayBackend.convert(a, to=other), BACK[other].convert(a), ArrayBackend.convert(a, to=other, backend=B)):
            check(other, c, sh, flat, K(k), 'conversion')
            expect(str(c.dtype).split('.')[-1] == str(a.dtype).split('.')[-1], 'conversion keeps the precision', c.dtype, a.dtype)
        two = ArrayBackend.convert(a, a[:1], to=other)
        expect(len(two) == 2, 'two arrays convert to two')
        check(other, two[0], sh, flat, K(k), 'conversion of several')
        check(other, two[1], (min(1, sh[0]),) + sh[1:], flat[:size_of((min(1, sh[0]),) + sh[1:])], K(k), 'conversion of several')
        check(b, B.convert(a), sh, flat, K(k), 'identity conversion')
        # size, shape
        expect(B.size(a) == n, 'size', B.size(a))
        expect(tuple(B.shape(a)) == sh, 'shape')
        # copy
        c = B.copy(a)
        check(b, c, sh, flat, K(k), 'copy')
        if n:
            c.reshape(-1)[0] = 1 if not flat[0] else 0
            check(b, a, sh, flat, K(k), 'the original after the copy changed')
        # likes
        for f, v in (('zeros_like', 0), ('ones_like', 1)):
            check(b, getattr(B, f)(a), sh, [v] * n, 'float', f)
            for kk in ('int', 'float', 'bool'):
                check(b, getattr(B, f)(a, dtype=KINDS[kk][b == 'torch']), sh, [v] * n, kk, f)
        # dims
        for d in range(-len(sh) - 1, len(sh) + 1):
            p = d if d >= 0 else d + len(sh) + 1
            check(b, B.expand_dims(a, d), sh[:p] + (1,) + sh[p:], flat, K(k), 'expand_dims %d' % d)
        check(b, B.squeeze(a), tuple(s for s in sh if s != 1), flat, K(k), 'squeeze')
        for d in range(-len(sh), len(sh)):
            if sh[d] == 1:
                p = d % len(sh)
                check(b, B.squeeze(a, d), sh[:p] + sh[p + 1:], flat, K(k), 'squeeze %d' % d)
        check(b, B.atleast_2d(a), sh if len(sh) > 1 else (1,) + sh, flat, K(k), 'atleast_2d')
        if len(sh) >= 2:
            order = [(t, e) for e in range(sh[1]) for t in range(sh[0])]
            rest = size_of(sh[2:])
            rows = {te: flat[(te[0] * sh[1] + te[1]) * rest:(te[0] * sh[1] + te[1] + 1) * rest] for te in order}
            check(b, B.flatten(a), (sh[0] * sh[1],) + sh[2:], [v for te in order for v in rows[te]], K(k), 'flatten')
            m = sh[0] * sh[1]
            if m <= 4:
                masks = itertools.product([False, True], repeat=m)
            else:
                masks = [[(i * 5 + r) % 3 != 0 for i in range(m)] for r in range(4)] + [[True] * m, [False] * m]
            for mask in masks:
                mm = make(b, list(mask), sh[:2], 'bool')
                keep = [te for te in order if mask[te[0] * sh[1] + te[1]]]
                check(b, B.pack_padded_sequence(a, mm), (len(keep),) + sh[2:], [v for te in keep for v in rows[te]], K(k),
                      'pack_padded_sequence')
                st.step()
        # elementwise
        if k != 'bool':
            check(b, B.abs(a), sh, [abs(v) for v in flat], K(k), 'abs')
            bounds = [(-1, 1), (0, 5), (-2.5, 0.5), (2, 2)] if k != 'int' else [(-1, 1), (0, 5), (2, 2)]
            for lo, hi in bounds:
                check(b, B.clip(a, lo, hi), sh, [min(max(v, lo), hi) for v in flat], K(k), 'clip')
                for v in flat[:3]:
                    expect(close(min(max(v, lo), hi), float(B.clip(make(b, [v], (), k), lo, hi))), 'clip of a number', v, lo, hi)
            if K(k) == 'float':
                check(b, B.sqrt(a), sh, [math.sqrt(v) if v >= 0 else math.nan for v in flat], 'float', 'sqrt')
                if n:
                    los = make(b, [-1. - i for i in range(n)], sh, k)
                    his = make(b, [.25 * i for i in range(n)], sh, k)
                    check(b, B.clip(a, los, his), sh, [min(max(v, -1. - i), .25 * i) for i, v in enumerate(flat)], 'float', 'clip to arrays')
            if n:
                s = sorted(flat)
                med = (s[(n - 1) // 2] + s[n // 2]) / 2
                m = B.median(a)
                expect(close(float(m), med), 'median', float(m), med)
        # where
        cond = a > 0 if k != 'bool' else a
        pos = [i for i in indices(sh) if get(x, i) > 0]
        w = B.where(cond)
        expect(len(w) == len(sh), 'where: one index array per dimension')
        for d in range(len(sh)):
            check(b, w[d], (len(pos),), [i[d] for i in pos], 'int', 'where')
        neg = make(b, [-7 if k != 'bool' else False] * n, sh, k)
        check(b, B.where(cond, a, neg), sh, [v if v > 0 else (-7 if k != 'bool' else False) for v in flat], K(k), 'where with values')
        # from_list
        if n:
            check(b, B.from_list(build(flat, sh)), sh, flat, K(k), 'from_list of numbers')
            check(b, B.from_list([e for e in a]), sh, flat, K(k), 'from_list of arrays')
        expect(torch.equal(a, fresh()) if b == 'torch' else np.array_equal(a, fresh()), 'an operation changed its argument')
        st.step(30)
    # lists
    lst = build(flat, sh) if n else []
    if n:
        expect(ArrayBackend.get_array_backend_from(lst) is LI and ArrayBackend.get_array_backend_from(deque([1])) is LI, 'list backend')
        for to in BACK:
            check(to, ArrayBackend.convert(lst, to=to), sh, flat, K(k), 'conversion of a list')
            if k in ('float', 'int') and len(sh) > 1:
                check(to, ArrayBackend.convert([np.array(r, dtype=KINDS[k][0]) for r in lst], to=to), sh, flat, K(k), 'conversion of a list of arrays')
        tl = [torch.tensor(r, dtype=KINDS[k][1]) for r in lst]
        check('torch', ArrayBackend.convert(tl, to='torch'), sh, flat, K(k), 'conversion of a list of tensors')
        check('torch', ArrayBackend.convert(deque(tl), to='torch'), sh, flat, K(k), 'conversion of a queue of tensors')
        expect(tuple(LI.shape(lst)) == sh, 'shape of a list')
        c = LI.copy(lst)
        expect(c == lst and c is not lst, 'copy of a list')
        if k != 'bool':
            s = sorted(flat)
            expect(close(float(LI.median(lst)), (s[(n - 1) // 2] + s[n // 2]) / 2), 'median of a list')
    st.state(k, sh, tuple(flat))
    st.outcome(sh, k)
    st.trace()


def unary_cases(tier):
    for k, sh, flat in arrays(tier):
        yield {'k': k, 'sh': list(sh), 'v': flat}


def run_concat(case, st):
    k, shapes, d = case['k'], [tuple(s) for s in case['sh']], case['d']
    base, parts = 0, []
    for s in shapes:
        n = size_of(s)
        parts.append([bool((base + i) % 2) if k == 'bool' else base + i for i in range(n)])
        base += n
    nd = len(shapes[0])
    p = d % nd
    out = list(shapes[0])
    out[p] = sum(s[p] for s in shapes)
    owner = [(j, i) for j, s in enumerate(shapes) for i in range(s[p])]
    xs = [build(f, s) if size_of(s) else None for f, s in zip(parts, shapes)]
    flat = []
    for idx in indices(out):
        j, i = owner[idx[p]]
        flat.append(get(xs[j], idx[:p] + (i,) + idx[p + 1:]))
    for b, B in BACK.items():
        arrs = [make(b, f, s, k) for f, s in zip(parts, shapes)]
        for cont in (list, tuple):
            check(b, B.concatenate(cont(arrs), dim=d), out, flat, K(k), 'concatenate')
        if d == 0:
            check(b, B.concatenate(arrs), out, flat, K(k), 'concatenate along the default dimension')
        st.step(3)
    st.state(k, tuple(shapes), d)
    st.outcome(tuple(out))
    st.trace()


def concat_cases(tier):
    m = 2 if tier == 'quick' else 3
    for k in ('float', 'int', 'bool'):
        for nd in (1, 2, 3):
            for sh in itertools.product(range(1, m + 1), repeat=nd):
                for p in range(nd):
                    for r in (1, 2, 3):
                        for sizes in itertools.product(range(0, m + 1), repeat=r):
                            shapes = [list(sh[:p] + (s,) + sh[p + 1:]) for s in sizes]
                            for d in (p, p - nd):
                                yield {'k': k, 'sh': shapes, 'd': d}


def run_create(case, st):
    for b, B in BACK.items():
        ti = b == 'torch'
        if case['op'] == 'dims':
            dims = tuple(case['dims'])
            n = size_of(dims)
            for f, v in (('zeros', 0), ('ones', 1)):
                check(b, getattr(B, f)(*dims), dims, [v] * n, 'float', f)
                for kk in ('int', 'float', 'bool', 'single'):
                    check(b, getattr(B, f)(*dims, dtype=KINDS[kk][ti]), dims, [v] * n, K(kk), f)
            for v in (0, 3, 2.5, True, -1.0):
                check(b, B.full(dims, v), dims, [v] * n, 'bool' if v is True else 'int' if isinstance(v, int) else 'float', 'full')
            e = B.empty(dims)
            expect(tuple(e.shape) == dims and kind(e) == 'float', 'empty')
            expect(math.isnan(float(B.none())), 'none')
        elif case['op'] == 'arange':
            lo, hi, stp, kk = case['a']
            ref = []
            v = lo
            i = 0
            while lo + i * stp < hi if stp > 0 else lo + i * stp > hi:
                ref.append(lo + i * stp)
                i += 1
            if kk is None:
                rk = 'float' if any(isinstance(z, float) for z in (lo, hi, stp)) else 'int'
                check(b, B.arange(lo, hi, stp), (len(ref),), ref, rk, 'arange')
                if stp == 1:
                    check(b, B.arange(lo, hi), (len(ref),), ref, rk, 'arange with unit step')
            else:
                check(b, B.arange(lo, hi, stp, dtype=KINDS[kk][ti]), (len(ref),), ref, K(kk), 'arange')
        elif case['op'] == 'randint':
            lo, hi, size = case['a']
            size = tuple(size)
            seen = set()
            if b == 'numpy':
                for path, p, r in explore(lambda ch: _draw(ch, B, lo, hi, size)):
                    seen.add(tuple(np.asarray(r).reshape(-1).tolist()))
                    expect(np.asarray(r).shape == size and kind(r) == 'int', 'randint shape')
                    st.step()
                expect(seen == set(itertools.product(range(lo, hi), repeat=size_of(size))), 'randint outcomes', seen)
            else:
                for _ in range(3):
                    r = B.randint(lo, hi, size)
                    expect(tuple(r.shape) == size and kind(r) == 'int' and bool(((r >= lo) & (r < hi)).all()), 'randint range')
    st.state(repr(case))
    st.outcome(case['op'])
    st.trace()


def _draw(ch, B, lo, hi, size):
    with controlled_random(ch):
        return B.randint(lo, hi, size)


def create_cases(tier):
    m = 3 if tier == 'quick' else 4
    for nd in (1, 2, 3):
        for dims in itertools.product(range(m + 1), repeat=nd):
            yield {'op': 'dims', 'dims': list(dims)}
    for lo in range(-2, 3):
        for hi in range(-2, 6):
            for stp in (1, 2, 3, -1):
                if stp > 0 and hi < lo or stp < 0 and hi > lo:
                    continue
                for kk in (None, 'int', 'float', 'single'):
                    yield {'op': 'arange', 'a': [lo, hi, stp, kk]}
    for lo, hi, stp in ((0., 1., .25), (0, 1, .5), (-1., 2, 1), (.5, .5, 1)):
        yield {'op': 'arange', 'a': [lo, hi, stp, None]}
    for lo in (-1, 0, 2):
        for w in (1, 2, 3):
            for size in ((), (1,), (2,), (2, 1), (3,)):
                if size == ():
                    continue
                yield {'op': 'randint', 'a': [lo, lo + w, list(size)]}


FAMILIES = [
    Family('unary', unary_cases, run_unary,
           lambda t: 'all arrays of up to %d elements over 3 values, 18 shapes up to 3 dimensions, 4 kinds of numbers; all masks of up to 4 entries' % (4 if t == 'quick' else 6)),
    Family('concatenate', concat_cases, run_concat, lambda t: 'up to 3 arrays, up to 3 dimensions of size up to %d, every dimension' % (2 if t == 'quick' else 3)),
    Family('creation', create_cases, run_create, 'every shape of up to 3 dimensions, ranges, and every outcome of small integer draws'),
]
