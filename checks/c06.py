"""C06: the replay memory."""
import itertools

import numpy as np
import torch

from mushroom_rl.core import Dataset, DatasetInfo, AgentInfo, MDPInfo
from mushroom_rl.rl_utils import ReplayMemory
from mushroom_rl.rl_utils.spaces import Box
from mc.harness import Family, expect
from mc.explore import explore, controlled_random

ASSUMPTIONS = ['spaces declare the Python number type, which both backends accept', 'every transition carries distinct markers', 'draws are enumerated by replacing the global numpy and '
               'torch random functions']
FLAGS = [(False, False), (False, True), (True, True)]


def tl(x):
    return (x.detach().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)).tolist()


def transition(i, f, stateful):
    t = ([float(i), i + .25], [i + .5], float(2 ** (i % 9)), [i + .75, i + .125], FLAGS[f][0], FLAGS[f][1])
    return t + (([i + .375], [i + .625]) if stateful else ())


def mdp(backend):
    dt = float
    return MDPInfo(Box(-1e9 * np.ones(2), 1e9 * np.ones(2), data_type=dt),
                   Box(-1e9 * np.ones(1), 1e9 * np.ones(1), data_type=dt), .9, 100, backend=backend)


def dataset(seq, backend, stateful, spare=0):
    dt = torch.float64 if backend == 'torch' else float
    ds = Dataset(DatasetInfo(backend, None, 100, .9, (2,), dt, (1,), dt, (1,) if stateful else None),
                 n_steps=len(seq) + spare)
    mk = (lambda v: torch.tensor(v, dtype=torch.float64)) if backend == 'torch' else np.array
    for t in seq:
        ds.append(tuple(mk(v) if isinstance(v, list) else v for v in t), {'k': 1.})
    return ds


def windows(seq, n, gamma):
    """The samples that an insertion adds: all windows of n transitions inside one episode."""
    out = []
    for i in range(len(seq) - n + 1):
        if any(seq[i + j][5] for j in range(n - 1)):
            continue
        r = sum(gamma ** j * seq[i + j][2] for j in range(n))
        e = seq[i + n - 1]
        t = (seq[i][0], seq[i][1], r, e[3], e[4], e[5])
        if len(seq[i]) > 6:
            t += (seq[i][6], e[7])
        out.append(t)
    return out


def key(t):
    return str([round(x, 6) if isinstance(x, float) else x for x in t])


def unpack(batch, stateful):
    cols = [tl(c) for c in batch]
    expect(len(cols) == (8 if stateful else 6), 'the batch has', len(cols), 'fields')
    n = len(cols[0])
    expect(all(len(c) == n for c in cols), 'fields of different length')
    return [tuple(bool(c[i]) if q in (4, 5) else c[i] for q, c in enumerate(cols)) for i in range(n)]


def draw(mem, k, stateful, backend):
    def fn(ch):
        with controlled_random(ch, patch_torch=True):
            b = mem.get(k)
        expect(all(isinstance(x, torch.Tensor) == (backend == 'torch') for x in b), 'batch backend')
        return unpack(b, stateful)
    return explore(fn)


def run(case, st):
    eb, ab, sf = case['env'], case['agent'], case['stateful']
    cap, init = case['cap'], case['init']
    mem = ReplayMemory(mdp(eb), AgentInfo(False, (1,) if sf else None, ab), init, cap)
    held = []
    i = 0
    for op in case['ops']:
        if op == 'reset':
            mem.reset()
            held = []
        else:
            seq = [transition(i + q, f, sf) for q, f in enumerate(op)]
            i += len(op)
            ds = dataset(seq, eb, sf, spare=len(op) % 2)
            kw = {'n_steps_return': case['n'], 'gamma': case['gamma']} if case['n'] > 1 else {}
            mem.add(ds, **kw)
            held = (held + windows(seq, case['n'], case['gamma']))[-cap:]
            back = [tl(x) for x in ds.parse(to='numpy')]
            expect([list(r) for r in zip(*back)] == [list(t[:6]) for t in seq], 'the inserted dataset was changed')
        st.step()
        expect(mem.size == len(held), 'size', mem.size, 'expected', len(held))
        expect(bool(mem.initialized) == (len(held) > init), 'initialized with', len(held), 'of', init)
        if not held:
            continue
        mass = {}
        for path, p, rows in draw(mem, 1, sf, ab):
            expect(len(rows) == 1, 'batch size', len(rows))
            mass[key(rows[0])] = mass.get(key(rows[0]), 0.) + p
        exp = {key(t): 1. / len(held) for t in held}
        expect(set(mass) == set(exp), 'drawn samples', sorted(set(mass) - set(exp)), 'not held / missing',
               sorted(set(exp) - set(mass)))
        expect(all(abs(mass[k] - exp[k]) < 1e-9 for k in exp), 'samples are not drawn uniformly', mass)
        st.state(eb, ab, sf, cap, case['n'], str(held))
    if held and len(held) <= 3:
        ks = {key(t) for t in held}
        seen = set()
        for path, p, rows in draw(mem, 2, sf, ab):
            expect(len(rows) == 2, 'batch size', len(rows))
            expect(all(key(r) in ks for r in rows), 'a batch contains something else', rows)
            seen.add((key(rows[0]), key(rows[1])))
            st.step()
        expect(len(seen) == len(held) ** 2, 'draws of a batch are not independent', len(seen))
    st.outcome(str(held))
    st.trace()


def compositions(flags, parts):
    n = len(flags)
    for cuts in itertools.combinations(range(1, n), parts - 1):
        b = (0,) + cuts + (n,)
        yield [list(flags[b[i]:b[i + 1]]) for i in range(parts)]


def ring_cases(tier):
    L = 6 if tier == 'quick' else 8
    for eb, ab in itertools.product(['numpy', 'torch'], repeat=2):
        for sf in (False, True):
            for cap in range(1, 5):
                for n_tot in range(1, L + 1):
                    fl = [(q * 2 + n_tot) % 3 for q in range(n_tot)]
                    for parts in range(1, min(n_tot, 3 if tier == 'quick' else 4) + 1):
                        for ops in compositions(fl, parts):
                            yield {'env': eb, 'agent': ab, 'stateful': sf, 'cap': cap, 'init': cap // 2, 'n': 1,
                                   'gamma': 1., 'ops': ops}
                            if parts == 2:
                                yield {'env': eb, 'agent': ab, 'stateful': sf, 'cap': cap, 'init': 1, 'n': 1,
                                       'gamma': 1., 'ops': [ops[0], 'reset', ops[1]]}


def nstep_cases(tier):
    L = 4 if tier == 'quick' else 6
    for ag in ('numpy', 'torch'):
        for n in (2, 3) if tier == 'quick' else (2, 3, 4):
            for n_tot in range(1, L + 1):
                for fl in itertools.product([0, 1, 2], repeat=n_tot):
                    for cap in (2, 5):
                        for parts in (1, 2):
                            for ops in compositions(fl, parts):
                                yield {'env': 'numpy', 'agent': ag, 'stateful': n_tot % 2 == 0, 'cap': cap, 'init': 0,
                                       'n': n, 'gamma': .5, 'ops': ops}


FAMILIES = [
    Family('ring', ring_cases, run, 'all splits into up to 3 (4) insertions of up to 6 (8) transitions, capacities 1..4, '
           'resets, backends, stateful'),
    Family('n-step', nstep_cases, run, 'all flag patterns of up to 4 (6) transitions, n = 2..3 (4), all splits in two'),
]
