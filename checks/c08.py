"""C08: the sequence replay memory."""
import itertools

import numpy as np
import torch

from mushroom_rl.core import AgentInfo
from mushroom_rl.rl_utils.replay_memory import SequenceReplayMemory
from mc.harness import Family, expect
from mc.explore import explore, controlled_random
from checks.c06 import transition, dataset, mdp, tl, compositions

ASSUMPTIONS = ['one-step insertion (n-step samples do not form sequences)', 'two stored transitions are consecutive in '
               'the experience iff they were inserted one after the other and the first is not marked last']


def expected(held, pos, T, sf):
    """Window ending at held[pos]."""
    b = pos
    while b > 0 and pos - b + 1 < T and not held[b - 1][5]:
        b -= 1
    w = held[b:pos + 1]
    pad = T - len(w)
    z2, z1 = [[0., 0.]] * pad, [[0.]] * pad
    prev = [0.] if b == 0 or held[b - 1][5] else held[b - 1][1]
    e = held[pos]
    out = {'s': [t[0] for t in w] + z2, 'a': [t[1] for t in w] + z1, 'r': [e[2]], 'ss': [t[3] for t in w] + z2,
           'ab': [float(e[4])], 'last': float(e[5])}
    if sf:
        out['ps'] = [t[6] for t in w] + z1
        out['nps'] = [t[7] for t in w] + z1
    out['pa'] = [prev] + [t[1] for t in w[:-1]] + z1
    out['len'] = len(w)
    return out


def close(x, y):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    return x.shape == y.shape and np.allclose(x, y, atol=1e-4)


def run(case, st):
    ab, sf, cap, T = case['agent'], case['stateful'], case['cap'], case['T']
    mem = SequenceReplayMemory(mdp('numpy'), AgentInfo(False, (1,) if sf else None, ab), 1, cap, T)
    held = []
    i = 0
    for op in case['ops']:
        if op == 'reset':
            mem.reset()
            held = []
            continue
        seq = [transition(i + q, f, sf) for q, f in enumerate(op)]
        i += len(op)
        mem.add(dataset(seq, 'numpy', sf))
        held = (held + seq)[-cap:]
        expect(mem.size == len(held), 'size')
        exps = [expected(held, p, T, sf) for p in range(len(held))]

        for n in (1, 2) if len(held) <= 3 else (1,):
            def fn(ch):
                with controlled_random(ch, patch_torch=True):
                    return mem.get(n)
            mass = [0.] * len(held)
            for path, prob, b in explore(fn):
                expect(len(b) == (10 if sf else 8), 'number of fields', len(b))
                names = ['s', 'a', 'r', 'ss', 'ab', 'last'] + (['ps', 'nps'] if sf else []) + ['pa', 'len']
                cols = [tl(x) if not isinstance(x, (list, tuple)) else [int(v) for v in x] for x in b]
                expect(all(len(c) == n for c in cols), 'number of sequences')
                for k in range(n):
                    got = {nm: c[k] for nm, c in zip(names, cols)}
                    # the drawn position is identified by the reward and the final state
                    cand = [p for p in range(len(held))
                            if close(got['s'][max(got['len'], 1) - 1], held[p][0])]
                    expect(len(cand) == 1, 'the sequence ends at no held transition', got)
                    e = exps[cand[0]]
                    for nm in names:
                        expect(close(got[nm], e[nm]), 'sequence ending at', cand[0], 'of', len(held), ':', nm, got[nm],
                               'expected', e[nm])
                    mass[cand[0]] += prob / n
                st.step()
            expect(all(abs(m - 1. / len(held)) < 1e-9 for m in mass), 'positions are not drawn uniformly', mass)
        st.state(ab, sf, cap, T, str(held))
    st.outcome(str(held), T)
    st.trace()


def cases(tier):
    L = 6 if tier == 'quick' else 7
    for ab in ('numpy', 'torch'):
        for n_tot in range(1, L + 1):
            for fl in itertools.product([0, 1] if n_tot > 4 else [0, 1, 2], repeat=n_tot):
                for cap in (1, 2, 3, 4, 5):
                    if n_tot > 4 and cap < 3:
                        continue
                    for T in (1, 2, 3) if n_tot < 5 or tier != 'quick' else (2, 4):
                        sf = (n_tot + T + cap) % 2 == 0
                        yield {'agent': ab, 'stateful': sf, 'cap': cap, 'T': T, 'ops': [list(fl)]}
                        if n_tot >= 2 and (tier != 'quick' or n_tot < 5):
                            for ops in compositions(fl, 2):
                                yield {'agent': ab, 'stateful': not sf, 'cap': cap, 'T': T, 'ops': ops}
                            yield {'agent': ab, 'stateful': not sf, 'cap': cap, 'T': T,
                                   'ops': [list(fl), 'reset', list(fl[::-1])]}


FAMILIES = [Family('windows', cases, run, 'all flag patterns of up to 6 (7) transitions, capacities 1..5, truncation '
                   'lengths 1..4, insertion splits, resets, every drawn position')]
