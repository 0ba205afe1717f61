"""C07: prioritized replay and its sum tree."""
import itertools

import numpy as np
import torch

from mushroom_rl.core import AgentInfo
from mushroom_rl.rl_utils import PrioritizedReplayMemory
from mushroom_rl.rl_utils.replay_memory import SumTree
from mc.harness import Family, expect
from mc.explore import explore, controlled_random
from checks.c06 import transition, dataset, mdp, windows, key, tl, compositions

ASSUMPTIONS = ['priorities are positive integers, so that the enumerated draws (midpoints of a lattice aligned with the '
               'cumulative priorities) give the exact drawing probabilities']


class Model:
    def __init__(self, cap):
        self.cap, self.items, self.pos = cap, [None] * cap, 0

    def add(self, t, p):
        self.items[self.pos] = [t, float(p)]
        self.pos = (self.pos + 1) % self.cap

    @property
    def held(self):
        return [x for x in self.items if x is not None]

    @property
    def total(self):
        return sum(p for _, p in self.held)


def observe(mem, model, sf, beta, n, st, what):
    """All draws of n samples: distribution, content, weights and identifiers."""
    held = {key(t): p for t, p in model.held}
    T = model.total
    ids = {}
    count = {k: 0. for k in held}

    def fn(ch):
        with controlled_random(ch, lattice=int(round(T))):
            return mem.get(n)

    for path, prob, b in explore(fn):
        cols = [tl(x) for x in b]
        expect(len(cols) == (10 if sf else 8), what, 'batch fields', len(cols))
        rows = [tuple(bool(c[i]) if q in (4, 5) else c[i] for q, c in enumerate(cols[:-2])) for i in range(n)]
        w = []
        for i, row in enumerate(rows):
            k = key(row)
            expect(k in held, what, 'drew something that is not held:', row)
            expect(ids.setdefault(k, cols[-2][i]) == cols[-2][i], what, 'two identifiers for one sample')
            count[k] += prob
            w.append((len(held) * held[k] / T) ** -beta)
        w = np.array(w) / max(w)
        expect(np.allclose(cols[-1], w, rtol=1e-5), what, 'importance weights', cols[-1], 'expected', w.tolist())
        st.step()
    for k in held:
        expect(abs(count[k] - n * held[k] / T) < 1e-6, what, 'expected draws of', k, count[k], 'instead of',
               n * held[k] / T)
    expect(len(set(ids.values())) == len(ids), what, 'two samples share an identifier')
    return ids


def run_mem(case, st):
    ab, sf, cap = case['agent'], case['stateful'], case['cap']
    alpha, eps, beta = case['alpha'], case['eps'], case['beta']
    mem = PrioritizedReplayMemory(mdp('numpy'), AgentInfo(False, (1,) if sf else None, ab), case['init'], cap, alpha,
                                  beta, epsilon=eps)
    m = Model(cap)
    i = 0
    for q, op in enumerate(case['ops']):
        what = 'operation %d' % q
        if op[0] == 'add':
            ps = op[1]
            seq = [transition(i + j, f, sf) for j, f in enumerate(op[2])]
            i += len(seq)
            ds = dataset(seq, 'numpy', sf)
            mem.add(ds, np.array(ps, dtype=float), n_steps_return=case['n'], gamma=.5)
            w = windows(seq, case['n'], .5)
            starts = [int(t[0][0]) - int(seq[0][0][0]) for t in w]
            for t, s in zip(w, starts):
                m.add(t, ps[s])
            back = [tl(x) for x in ds.parse(to='numpy')]
            expect([list(r) for r in zip(*back)] == [list(t[:6]) for t in seq], 'the inserted dataset was changed')
        else:
            held = m.held
            if not held:
                continue
            ids = observe(mem, m, sf, beta, 1, st, what)
            sel = [held[j % len(held)] for j in op[1]]
            new = op[2]
            err = np.array([(p ** (1. / alpha) - eps) * (-1) ** j for j, p in enumerate(new)])
            idx = np.array([ids[key(t)] for t, _ in sel])
            mem.update(err, idx)
            for s, p in zip(sel, new):
                s[1] = float(p)
        held = m.held
        expect(bool(mem.initialized) == (len(held) > case['init']), what, 'initialized')
        mp = max(p for _, p in held) if len(held) > case['init'] else 1.
        expect(abs(mem.max_priority - mp) < 1e-9, what, 'max priority', mem.max_priority, 'expected', mp)
        if held:
            observe(mem, m, sf, beta, 1, st, what)
        st.state(cap, ab, sf, str(m.items), m.pos)
        st.step()
    if m.held and m.total <= 8:
        observe(mem, m, sf, beta, 2, st, 'batches of two')
    st.outcome(str(m.items))
    st.trace()


def run_tree(case, st):
    """The sum tree itself: totals, maxima and retrieval by mass."""
    cap = case['cap']
    tree = SumTree(mdp('numpy'), AgentInfo(False, None, 'numpy'), cap)
    m = Model(cap)
    i = 0
    for p in case['ps']:
        t = transition(i, 0, False)
        i += 1
        tree.add(dataset([t], 'numpy', False), [float(p)], 1, 1.)
        m.add(t, p)
        expect(tree.size == len(m.held), 'size')
        expect(abs(tree.total_p - m.total) < 1e-9, 'total', tree.total_p, m.total)
        expect(abs(tree.max_p - max(x for _, x in m.held)) < 1e-9, 'max')
        st.step()
    T = int(m.total)
    held = {key(t): p for t, p in m.held}
    mass = {k: 0. for k in held}
    for c in range(T):
        def fn(ch):
            with controlled_random(ch):
                return tree.get(c + .5)
        for path, prob, (idx, p, row) in explore(fn):
            k = key([x if isinstance(x, (bool, np.bool_)) and False else tl(x) for x in row])
            expect(k in held, 'retrieved something that is not held', row)
            expect(abs(p - held[k]) < 1e-9, 'priority', p, 'of', k)
            mass[k] += prob
            st.step()
    for k in held:
        expect(abs(mass[k] - held[k]) < 1e-9, 'mass of', k, mass[k], 'expected', held[k], 'priorities', case['ps'])
    st.state(cap, str(m.items))
    st.outcome(str(m.items))
    st.trace()


ERR = [0., 1e-9, 1e-3, -.5, 2000.]


def run_magnitudes(case, st):
    """Errors of every size, one update after the other: total, maximum and the weights of whatever is drawn."""
    cap, alpha, eps, beta = case['cap'], case['alpha'], case['eps'], case['beta']
    mem = PrioritizedReplayMemory(mdp('numpy'), AgentInfo(False, None, case['agent']), 0, cap, alpha, beta, epsilon=eps)
    n = case['held']
    seq = [transition(i, 0, False) for i in range(n)]
    mem.add(dataset(seq, 'numpy', False), np.ones(n))
    prio = {key(t): 1. for t in seq}
    ids = {}
    for e in [None] + list(case['errs']):
        if e is not None:
            i = e[0] % n
            mem.update(np.array([ERR[e[1]]]), np.array([ids[key(seq[i])]]))
            prio[key(seq[i])] = (abs(ERR[e[1]]) + eps) ** alpha
        T = sum(prio.values())
        expect(abs(mem.max_priority - max(prio.values())) < 1e-9 * T, 'maximum priority', mem.max_priority, max(prio.values()))
        tot = float(mem._tree.total_p) if hasattr(mem, '_tree') else T
        expect(abs(tot - T) < 1e-9 * max(T, 1.), 'total priority', tot, 'expected', T)

        def fn(ch):
            with controlled_random(ch, lattice=4 if e is None else 2):
                return mem.get(2)
        for path, prob, b in explore(fn):
            cols = [tl(x) for x in b]
            ks = [key(tuple(bool(c[i]) if q in (4, 5) else c[i] for q, c in enumerate(cols[:-2]))) for i in range(2)]
            expect(all(k in prio for k in ks), 'drew something that is not held')
            for k, c in zip(ks, cols[-2]):
                ids[k] = c
            w = np.array([(n * prio[k] / T) ** -beta for k in ks])
            expect(np.allclose(cols[-1], w / w.max(), rtol=1e-4), 'importance weights', cols[-1], 'expected', w / w.max(),
                   'priorities', prio)
            st.step()
        st.state(cap, alpha, eps, str(sorted(prio.values())))
    st.outcome(str(sorted(prio.values())))
    st.trace()


def magnitude_cases(tier):
    for ag in ('numpy', 'torch'):
        for cap, n in ((1, 1), (2, 2), (3, 2), (4, 4)):
            for alpha, eps, beta in ((1., .01, 1.), (.6, .001, .4), (2., .5, .5)):
                up = [(i, e) for i in range(min(n, 2)) for e in range(len(ERR))]
                for L in (1, 2, 3) if tier == 'thorough' or (ag == 'numpy' and alpha == 1.) else (1, 2):
                    for errs in itertools.product(up, repeat=L):
                        yield {'agent': ag, 'cap': cap, 'held': n, 'alpha': alpha, 'eps': eps, 'beta': beta, 'errs': errs}


def tree_cases(tier):
    caps = range(1, 6) if tier == 'quick' else range(1, 8)
    L = 6 if tier == 'quick' else 7
    for cap in caps:
        for n in range(1, min(cap + 2, L) + 1):
            for ps in itertools.product([1, 2, 3], repeat=n):
                yield {'cap': cap, 'ps': ps}


def mem_cases(tier):
    """Insert, update, insert: every choice of priorities."""
    for ab in ('numpy', 'torch'):
        for cap in (2, 3, 4):
            for k1, k2 in ((1, 1), (2, 1), (2, 2), (3, 2)) if tier == 'quick' else ((1, 1), (2, 1), (2, 2), (3, 2), (4, 3)):
                for p1 in itertools.product([1, 2], repeat=k1):
                    for sel in ([0], [1], [0, 1], [1, 1], [2, 0]):
                        for pu in itertools.product([1, 3] if tier == 'quick' else [1, 2, 3], repeat=len(sel)):
                            for p2 in ([2] * k2, [3] + [1] * (k2 - 1)):
                                yield {'agent': ab, 'stateful': (cap + k1) % 2 == 0, 'cap': cap, 'init': k1 - 1, 'n': 1,
                                       'alpha': [1., .5][len(sel) - 1], 'eps': [0., .25][len(sel) - 1],
                                       'beta': .5,
                                       'ops': [('add', p1, [0] * k1), ('update', sel, pu), ('add', p2, [1] * k2),
                                               ('update', sel[::-1], pu)]}


def nstep_cases(tier):
    for n in (2, 3):
        for L in (2, 3, 4):
            for fl in itertools.product([0, 1, 2], repeat=L):
                ps = [1 + q % 3 for q in range(L)]
                for cap in (2, 3):
                    yield {'agent': 'numpy', 'stateful': L % 2 == 0, 'cap': cap, 'init': 0, 'n': n, 'alpha': 1.,
                           'eps': 0., 'beta': 1., 'ops': [('add', ps, fl), ('add', ps[::-1], fl[::-1])]}


FAMILIES = [
    Family('sum-tree', tree_cases, run_tree, 'all priority sequences over {1,2,3} of up to capacity+2 insertions, '
           'capacities 1..5 (7), all retrieval masses and tie choices'),
    Family('memory', mem_cases, run_mem, 'insert/update/insert/update over a priority lattice, all draws'),
    Family('magnitudes', magnitude_cases, run_magnitudes, 'every sequence of up to 3 updates of two samples with errors from 0 to 2000'),
    Family('n-step', nstep_cases, run_mem, 'all flag patterns of up to 4 transitions inserted twice, n = 2, 3'),
]
