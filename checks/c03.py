"""C03: a dataset is a faithful sequence of its transitions."""
import itertools

import numpy as np
import torch

from mushroom_rl.core import Dataset, DatasetInfo
from mc.harness import Family, expect
from mc.explore import explore, controlled_random

ASSUMPTIONS = ['transitions carry distinct markers in every field, so that a mix-up of fields, rows or backends shows',
               'the list storage is used with array-valued states and actions and without step information']

GAMMA = .5
# (absorbing, last)
FLAGS = [(False, False), (False, True), (True, True), (True, False)]


def make_info(backend, stateful):
    dt = torch.float64 if backend == 'torch' else float
    return DatasetInfo(backend, None, 7, GAMMA, (2,), dt, (1,), dt, (2,) if stateful else None)


REW = [1., -2., 4., 8., -16., 32., 64., -128., 256., 512., 1024.]


def trans(i, flags, stateful):
    """The i-th transition as plain Python values."""
    t = ([float(i), i + .25], [10. + i], REW[i % 11], [i + 1., i + 1.25], bool(flags[0]), bool(flags[1]))
    return t + (([100. + i, 100.5 + i], [200. + i, 200.5 + i]) if stateful else (None, None))


def conv(t, backend):
    mk = (lambda x: torch.tensor(x, dtype=torch.float64)) if backend == 'torch' else np.array
    return tuple(mk(x) if isinstance(x, list) else x for x in t)


def fill(ds, seq, backend):
    for t in seq:
        x = conv(t, backend)
        ds.append(x, {} if backend == 'list' else {'k': t[1][0]})
        # the caller goes on using its arrays
        for y in x:
            if isinstance(y, (np.ndarray, torch.Tensor)):
                y[...] = -777.


def build(backend, stateful, seq, spare):
    ds = Dataset(make_info(backend, stateful), n_steps=max(1, len(seq) + spare))
    fill(ds, seq, backend)
    return ds


def tolist(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().numpy()
    if isinstance(x, (list, tuple)):
        return [tolist(y) for y in x]
    return np.asarray(x).tolist()


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float))


def episodes(seq):
    out, cur = [], []
    for t in seq:
        cur.append(t)
        if t[5]:
            out.append(cur)
            cur = []
    return out, cur


def ret(ep, g):
    return sum(g ** i * t[2] for i, t in enumerate(ep))


def check(ds, seq, backend, stateful, st, full=True, what='', info=True):
    """Every observable of the dataset against the list of transitions."""
    expect(len(ds) == len(seq), what, 'length', len(ds), 'expected', len(seq))
    cols = [[t[k] for t in seq] for k in range(8)]
    if info and backend != 'list' and seq:
        ds.info.parse()
        expect(tolist(ds.info['k']) == [t[1][0] for t in seq], what, 'step information', tolist(ds.info['k']))
    for to in (None, 'numpy', 'torch'):
        if to == 'torch' and not seq:
            continue
        p = ds.parse(to=to)
        if to is not None or backend != 'list':
            expect(all(isinstance(x, np.ndarray if (to or backend) == 'numpy' else torch.Tensor) for x in p), what,
                   'parse type')
        for k in range(6):
            got = tolist(p[k])
            expect(got == cols[k], what, 'parse field', k, 'to', to, got, 'expected', cols[k])
        if stateful and seq:
            ps, pss = ds.parse_policy_state(to=to)
            expect(tolist(ps) == cols[6] and tolist(pss) == cols[7], what, 'policy states', tolist(ps), tolist(pss),
                   'expected', cols[6], cols[7])
        if backend == 'list' and to is None:
            continue
    for k, name in enumerate(['state', 'action', 'reward', 'next_state', 'absorbing', 'last']):
        expect(tolist(getattr(ds, name)) == cols[k], what, 'field', name)
    expect(bool(ds.is_stateful) == stateful, what, 'is_stateful')
    if stateful:
        expect(tolist(ds.policy_state) == cols[6] and tolist(ds.policy_next_state) == cols[7], what, 'policy state')
    for i in list(range(-len(seq), len(seq))):
        expect(tolist(list(ds[i])) == list(seq[i][:6]), what, 'index', i, tolist(list(ds[i])), 'expected', seq[i][:6])
    for i in (len(seq), len(seq) + 1, -len(seq) - 1):
        try:
            ds[i]
        except IndexError:
            pass
        else:
            expect(False, what, 'index', i, 'of', len(seq), 'did not fail')
    expect([tolist(list(t)) for t in ds] == [list(t[:6]) for t in seq], what, 'iteration')
    eps, rest = episodes(seq)
    alleps = eps + ([rest] if rest else [])
    if seq:
        expect(int(ds.n_episodes) == len(alleps), what, 'n_episodes', ds.n_episodes, len(alleps))
        expect(tolist(ds.get_init_states()) == [e[0][0] for e in alleps], what, 'initial states')
    expect(tolist(ds.episodes_length) == [len(e) for e in eps], what, 'episodes_length')
    for g in (1., .5, 0.):
        J = [ret(e, g) for e in alleps] or [0.]
        expect(close(tolist(ds.compute_J(g)), J), what, 'compute_J', g, tolist(ds.compute_J(g)), J)
        m = [float(x) for x in ds.compute_metrics(g)]
        Jc = [ret(e, g) for e in eps]
        exp = [min(Jc), max(Jc), float(np.mean(Jc)), float(np.median(Jc)), len(Jc)] if Jc else [0.] * 5
        expect(close(m, exp), what, 'compute_metrics', g, m, exp)
    expect(close(tolist(ds.compute_J()), [ret(e, 1.) for e in alleps] or [0.]), what, 'default compute_J')
    expect(close(tolist(ds.undiscounted_return), [ret(e, 1.) for e in alleps] or [0.]), what, 'undiscounted_return')
    expect(close(tolist(ds.discounted_return), [ret(e, GAMMA) for e in alleps] or [0.]), what, 'discounted_return')
    st.state(backend, stateful, str(seq))
    st.outcome(str([(t[4], t[5]) for t in seq]))
    if not full:
        return
    for k in range(1, len(eps) + 1):
        exp = [t for e in eps[:k] for t in e]
        check(ds.select_first_episodes(k), exp, backend, stateful, st, False, what + ' first %d episodes' % k, info)
        st.step()


def slices(n):
    out = []
    for a in [None] + list(range(-n, n + 1)):
        for b in [None] + list(range(-n, n + 1)):
            out.append((a, b, None))
    out += [(None, None, 2), (1, None, 2)]
    return out


def seq_of(case):
    return [trans(i, FLAGS[f], case['stateful']) for i, f in enumerate(case['flags'])]


def run_fill(case, st):
    b, sf = case['backend'], case['stateful']
    seq = seq_of(case)
    ds = Dataset(make_info(b, sf), n_steps=len(seq) + case['spare'])
    for k in range(len(seq)):
        fill(ds, seq[k:k + 1], b)
        st.step()
        check(ds, seq[:k + 1], b, sf, st, full=k + 1 == len(seq), what='after %d appends' % (k + 1))
    for a in (seq[:1], seq[1:]):
        whole, before = ds[:], list(seq if a == seq[:1] else seq[:1])
        read = ds.parse() + (ds.parse_policy_state() if sf else ())
        keep = [tolist(x) for x in read]
        ds.clear()
        st.step()
        check(ds, [], b, sf, st, what='after clear')
        fill(ds, a, b)
        check(ds, a, b, sf, st, full=False, what='refilled')
        expect([tolist(x) for x in read] == keep, 'what was read before clearing changed')
        check(whole, before, b, sf, st, full=False, what='view taken before clearing')
    st.trace()


def run_slice(case, st):
    b, sf = case['backend'], case['stateful']
    seq = seq_of(case)
    n = len(seq)
    ds = build(b, sf, seq, case['spare'])
    subs = []
    for a in slices(n):
        subs.append((slice(*a), seq[slice(*a)]))
    for r in (1, 2):
        for idx in itertools.product(range(n), repeat=r):
            subs.append((np.array(idx), [seq[i] for i in idx]))
            if b == 'torch':
                subs.append((torch.tensor(idx), [seq[i] for i in idx]))
    for index, exp in subs:
        v = ds[index]
        st.step()
        check(v, exp, b, sf, st, full=False, what='view %s' % (index,))
        if len(exp) > n + case['spare'] and b != 'list':
            continue
        c = ds.get_view(index, copy=True)
        check(c, exp, b, sf, st, full=False, what='copied view %s' % (index,))
        if len(exp) < n + case['spare'] or b == 'list':
            extra = trans(9, (True, True), sf)
            fill(c, [extra], b)
            check(c, exp + [extra], b, sf, st, full=False, what='copied view %s extended' % (index,))
    check(ds, seq, b, sf, st, full=False, what='source after taking views')
    if n == 1:
        expect(tolist(list(ds.item())) == list(seq[0][:6]), 'item')
    st.trace()


def joined(x, y):
    if not x:
        return list(y)
    z = list(x[:-1]) + [x[-1][:5] + (True,) + x[-1][6:]]
    return z + list(y)


def run_ops(case, st):
    """A sequence of derivations; every dataset made so far keeps its content."""
    b, sf = case['backend'], case['stateful']
    seq = seq_of(case)
    k = case['split']
    pool = [(build(b, sf, seq[:k], case['spare']), seq[:k]), (build(b, sf, seq[k:], 0), seq[k:])]
    thetas = [[1., 2.], [3.]]
    for (d, _), th in zip(pool, thetas):
        for x in th:
            d.append_theta(x)
    for op in case['ops']:
        kind, i, j = op
        x, mx = pool[i % len(pool)]
        y, my = pool[j % len(pool)]
        if kind == 'add':
            pool.append((x + y, joined(mx, my)))
            thetas.append(thetas[i % len(thetas)] + thetas[j % len(thetas)])
        elif kind == 'tail':
            pool.append((x[-2:], mx[-2:]))
        elif kind == 'head':
            pool.append((x[:2], mx[:2]))
        elif kind == 'copy':
            pool.append((x.get_view(slice(None), copy=True), list(mx)))
        elif kind == 'rev':
            n = len(mx)
            pool.append((x[np.arange(n - 1, -1, -1)], mx[::-1]))
        if kind != 'add':
            thetas.append([])
        st.step()
        for q, (d, m) in enumerate(pool):
            expect(list(d.theta_list) == thetas[q], 'parameters of dataset', q, d.theta_list, 'expected', thetas[q])
            check(d, m, b, sf, st, full=False, what='dataset %d after %s' % (q, op))
    st.trace()


def run_arrays(case, st):
    """Datasets built from arrays of either backend."""
    b, sf, src = case['backend'], case['stateful'], case['src']
    seq = seq_of(case)
    cols = [np.array([t[k] for t in seq]) for k in range(8 if sf else 6)]
    if src == 'torch':
        cols = [torch.as_tensor(c) for c in cols]
    keep = [tolist(c) for c in cols]
    kw = {'policy_state': cols[6], 'policy_next_state': cols[7]} if sf else {}
    ds = Dataset.from_array(*cols[:6], gamma=GAMMA, horizon=7, backend=b, **kw)
    check(ds, seq, b, sf, st, what='from arrays', info=False)
    d2 = ds + ds
    check(d2, joined(seq, seq), b, sf, st, full=False, what='sum', info=False)
    if b != 'list':
        # transitions without information next to transitions with it
        other = build(b, sf, seq[:2], 0)
        val = [t[1][0] for t in seq[:2]]
        for first, second, n in ((ds, other, len(seq)), (other, ds, len(val))):
            both = first + second
            both.info.parse()
            got = tolist(both.info['k'])
            expect(len(got) == len(both), 'step information of', len(got), 'transitions of', len(both))
            expect((got[n:] if first is ds else got[:n]) == val and all(x != x for x in (got[:n] if first is ds else got[n:])),
                   'step information of a sum', got, val)
    ds[1:].select_first_episodes(1) if any(t[5] for t in seq[1:]) else None
    expect([tolist(c) for c in cols] == keep, 'the source arrays changed')
    back = Dataset.from_array(*ds.parse(to='numpy'), gamma=GAMMA, backend='numpy')
    check(back, [t[:6] + (None, None) for t in seq], 'numpy', False, st, full=False, what='parsed and rebuilt', info=False)
    st.step(3)
    st.trace()


def run_random(case, st):
    b, sf = case['backend'], case['stateful']
    seq = seq_of(case)
    ds = build(b, sf, seq, case['spare'])
    m = case['m']
    seen = set()
    for path, p, d in explore(lambda ch: pick(ds, m, ch)):
        got = list(zip(*[tolist(x) for x in d.parse(to='numpy')]))
        expect(len(got) == m, 'number of samples')
        ids = []
        for t in got:
            i = int(t[0][0])
            expect(0 <= i < len(seq) and list(t) == list(seq[i][:6]), 'a drawn sample is not a stored one', t)
            ids.append(i)
        check(d, [seq[i] for i in ids], b, sf, st, full=False, what='random selection')
        seen.add(tuple(ids))
        st.step()
    expect(seen == set(itertools.product(range(len(seq)), repeat=m)), 'not every selection is possible', seen)
    st.trace()


def pick(ds, m, ch):
    with controlled_random(ch):
        return ds.select_random_samples(m)


def flags(n, alphabet=4):
    return itertools.product(range(alphabet), repeat=n)


BK = ['numpy', 'torch', 'list']


def cases_fill(tier):
    N = 4 if tier == 'quick' else 6
    for b in BK:
        for sf in (False, True):
            for n in range(1, N + 1):
                for f in flags(n, 4 if n <= N - 2 else 3):
                    yield {'backend': b, 'stateful': sf, 'flags': f, 'spare': n % 3}
            if tier == 'quick':
                for f in flags(5, 2):
                    yield {'backend': b, 'stateful': sf, 'flags': f, 'spare': 2}


def cases_slice(tier):
    N = 3 if tier == 'quick' else 4
    for b in BK:
        for sf in (False, True):
            for n in range(1, N + 1):
                for f in flags(n, 3 if tier == 'thorough' or n < 3 else 2):
                    for spare in (0, 2):
                        yield {'backend': b, 'stateful': sf, 'flags': f, 'spare': spare}


OPS = ['add', 'tail', 'head', 'copy', 'rev']


def cases_ops(tier):
    depth = 2 if tier == 'quick' else 3
    pats = [(0, 0, 0, 1), (0, 1, 2, 0), (2, 0, 0, 2), (1, 0, 1, 1)]
    if tier == 'thorough':
        pats = [p for p in flags(4, 3)][::2]
    for b in BK:
        for sf in (False, True):
            for f in pats:
                for spare in (0, 2):
                    for split in (1, 2, 3):
                        for names in itertools.product(OPS, repeat=depth):
                            for first in ((0, 1), (1, 0)):
                                for second in ((2, 0), (1, 2), (2, 2)):
                                    ops = [(names[0],) + first] + [(nm,) + second for nm in names[1:]]
                                    if any(o[0] != 'add' for o in ops) and (first == (1, 0)) and second == (2, 2):
                                        continue
                                    yield {'backend': b, 'stateful': sf, 'flags': f, 'spare': spare, 'split': split,
                                           'ops': ops}


def cases_arrays(tier):
    for b in BK:
        for src in ('numpy', 'torch'):
            if b == 'list' and src == 'torch':
                continue
            for sf in (False, True):
                for n in range(1, 5):
                    for f in flags(n, 3):
                        yield {'backend': b, 'stateful': sf, 'flags': f, 'src': src}


def cases_random(tier):
    for b in BK:
        for sf in (False, True):
            for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
                for m in (1, 2, 3):
                    yield {'backend': b, 'stateful': sf, 'flags': [0, 1, 2, 0][:n], 'spare': 1, 'm': m}


FAMILIES = [
    Family('fill-and-clear', cases_fill, run_fill, 'all flag patterns of up to 4 (thorough: 6) transitions, 3 storages'),
    Family('views', cases_slice, run_slice, 'all slices and index lists of up to 3 (4) transitions'),
    Family('derivations', cases_ops, run_ops, 'all sequences of 2 (3) of add/head/tail/copy/reverse on a pool of datasets'),
    Family('from-arrays', cases_arrays, run_arrays, 'all flag patterns of up to 4 transitions, array kinds x storages'),
    Family('random-selection', cases_random, run_random, 'every outcome of drawing up to 3 of up to 3 (4) samples'),
]
