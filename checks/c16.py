"""C16: finite environments and their generators."""
import itertools
import os
import tempfile

import numpy as np

from mushroom_rl.environments.finite_mdp import FiniteMDP
from mushroom_rl.environments.generators import generate_grid_world, generate_simple_chain
from mushroom_rl.environments.generators.taxi import generate_taxi
from mc.harness import Family, expect
from mc.explore import explore, controlled_random

ASSUMPTIONS = ['states are numbered in reading order of the non-wall cells (for the taxi: one such block per set of '
               'collected passengers, in binary order)', 'grids are rectangular, as documented']


def dist(env, s, a):
    """Distribution of (next state, reward, absorbing) of one step, over all random outcomes."""
    out = {}

    def fn(ch):
        with controlled_random(ch):
            o, info = env.reset(np.array([s]))
            expect(int(np.asarray(o).reshape(-1)[0]) == s, 'reset to', s, 'starts in', o)
            ns, r, ab, info = env.step(np.array([a]))
        expect(np.asarray(ns).shape == (1,), 'shape of the state')
        return int(ns[0]), round(float(r), 9), bool(ab)
    for path, p, res in explore(fn):
        out[res] = out.get(res, 0.) + p
    return out


def close(d, e):
    d = {k: v for k, v in d.items() if v > 1e-12}
    e = {k: v for k, v in e.items() if v > 1e-12}
    return set(d) == set(e) and all(abs(d[k] - e[k]) < 1e-9 for k in d)


def starts(env):
    out = {}

    def fn(ch):
        with controlled_random(ch):
            return int(env.reset()[0][0])
    for path, p, s in explore(fn):
        out[s] = out.get(s, 0.) + p
    return out


def compare(env, model, mu, st, what=''):
    """model[s][a] = {(ns, r, ab): p}; an empty model[s] is an absorbing state."""
    S, A = len(model), env.info.action_space.n
    expect(env.info.observation_space.n == S, what, 'number of states', env.info.observation_space.n, 'expected', S)
    d = starts(env)
    expect(close(d, mu), what, 'initial distribution', d, 'expected', mu)
    for s in range(S):
        if not model[s]:
            continue
        expect(len(model[s]) == A, 'number of actions')
        for a in range(A):
            if model[s][a] is None:    # no successor under this action: not to be taken
                continue
            d = dist(env, s, a)
            expect(close(d, model[s][a]), what, 'state', s, 'action', a, 'gives', d, 'expected', model[s][a])
            st.step()
        st.state(what, str(model[s]))


# ---------------------------------------------------------------- plain
ROWS = [(1., 0.), (0., 1.), (.5, .5), (.25, .75)]


def run_plain(case, st):
    P = np.array(case['p'])
    S, A = P.shape[0], P.shape[1]
    R = np.array([[[s * 100 + a * 10 + n + .5 for n in range(S)] for a in range(A)] for s in range(S)])
    mu = None if case['mu'] is None else np.array(case['mu'])
    p_in, r_in = P.copy(), R.copy()
    env = FiniteMDP(p_in, r_in, mu, gamma=case['gamma'], horizon=case['h'])
    expect(env.info.gamma == case['gamma'] and env.info.horizon == case['h'], 'discount or horizon')
    ab = [not P[s].any() for s in range(S)]
    model = [[] if ab[s] else [{(n, R[s, a, n], ab[n]): P[s, a, n] for n in range(S)} if P[s, a].any() else None for a in range(A)]
             for s in range(S)]
    m = {s: 1. / S for s in range(S)} if mu is None else {s: mu[s] for s in range(S)}
    compare(env, model, m, st)
    # two and three steps in a row: the state moves on
    for acts in itertools.product(range(A), repeat=2):
        for s in range(S):
            if ab[s] or any(P[n].any() and not P[n].any(1).all() for n in range(S)):
                continue
            got, exp = {}, {}

            def fn(ch):
                with controlled_random(ch):
                    given = np.array([s])
                    o, _ = env.reset(given)
                    o0 = o
                    if case['gamma'] == .5:
                        given[0] = S - 1 - s    # the caller reuses the array
                    tr = []
                    kept = []
                    for a in acts:
                        o, r, b, _ = env.step(np.array([a]))
                        tr.append((int(o[0]), float(r), bool(b)))
                        kept.append(o)
                        if b:
                            break
                    expect([int(k[0]) for k in kept] == [t[0] for t in tr], 'an observation changed after it was returned')
                    expect(int(np.asarray(o0)[0]) == s, 'the first observation changed after it was returned')
                    expect(int(given[0]) == (S - 1 - s if case['gamma'] == .5 else s), 'the array given to reset was changed')
                return tuple(tr)
            for path, p, tr in explore(fn):
                got[tr] = got.get(tr, 0.) + p

            def rec(s0, i, tr, p):
                if i == len(acts) or (tr and tr[-1][2]):
                    exp[tuple(tr)] = exp.get(tuple(tr), 0.) + p
                    return
                for k, q in model[s0][acts[i]].items():
                    if q > 0:
                        rec(k[0], i + 1, tr + [(k[0], float(k[1]), bool(k[2]))], p * q)
            rec(s, 0, [], 1.)
            expect(close(got, exp), 'trajectories from', s, 'under', acts, got, 'expected', exp)
            st.step()
    expect(np.array_equal(p_in, P) and np.array_equal(r_in, R), 'the model given was changed')
    st.outcome(str(P.tolist()))
    st.trace()


def plain_cases(tier):
    rows = ROWS if tier == 'thorough' else ROWS[:3]
    for h, gamma in ((np.inf, .9), (5, .5)):
        h = 1e9 if h == np.inf else h
        for mu in (None, (1., 0.), (.25, .75)):
            for a in itertools.product(rows, repeat=2):
                for b in list(itertools.product(rows, repeat=2)) + [((0., 0.), (0., 0.))]:
                    yield {'p': [a, b], 'mu': mu, 'gamma': gamma, 'h': h}
                    yield {'p': [b, a], 'mu': mu, 'gamma': gamma, 'h': h}
    # states with outgoing probability under some actions only: not absorbing
    for k in (0, 1):
        for x, y in itertools.product([(1., 0., 0.), (0., .5, .5), (0., 0., 1.)], repeat=2):
            z = [(0., 0., 0.), (0., 0., 0.)]
            z[k] = y
            yield {'p': [[(.5, .5, 0.), x], z, [(0., 0., 0.)] * 2], 'mu': None, 'gamma': .9, 'h': 10}
    rows3 = [(1., 0., 0.), (0., 0., 1.), (.5, .25, .25), (0., .5, .5)]
    for x, y in itertools.product(rows3, repeat=2):
        for z in rows3[1:3]:
            yield {'p': [[x, y], [[0., 0., 0.]] * 2, [z, x]], 'mu': (.5, .25, .25), 'gamma': .9, 'h': 10}
            yield {'p': [[x], [y], [z]], 'mu': None, 'gamma': .9, 'h': 10}


# ---------------------------------------------------------------- grid files
DIRS = [(-1, 0), (1, 0), (0, -1), (0, 1)]


def write(lines, newline):
    fd, path = tempfile.mkstemp(suffix='.txt')
    with os.fdopen(fd, 'w') as f:
        f.write('\n'.join(lines) + ('\n' if newline else ''))
    return path


def grid_model(lines, prob, pos, neg):
    cells = [(i, j) for i, l in enumerate(lines) for j, c in enumerate(l) if c != '#']
    at = {c: k for k, c in enumerate(cells)}
    sym = {c: lines[c[0]][c[1]] for c in cells}
    model = []
    for c in cells:
        if sym[c] in 'G*':
            model.append([])
            continue
        acts = []
        for d in DIRS:
            n = (c[0] + d[0], c[1] + d[1])
            e = {}
            if n in at:
                r = pos if sym[n] == 'G' else neg if sym[n] == '*' else 0.
                e[(at[n], r, sym[n] in 'G*')] = prob
                e[(at[c], 0., False)] = 1. - prob
            else:
                e[(at[c], 0., False)] = 1.
            acts.append(e)
        model.append(acts)
    ss = [at[c] for c in cells if sym[c] == 'S']
    return model, {k: 1. / len(ss) for k in ss}


def run_grid(case, st):
    path = write(case['grid'], case['newline'])
    try:
        env = generate_grid_world(path, case['prob'], 10., -5., gamma=.75, horizon=33)
    finally:
        os.remove(path)
    expect(env.info.gamma == .75 and env.info.horizon == 33, 'discount or horizon')
    model, mu = grid_model(case['grid'], case['prob'], 10., -5.)
    compare(env, model, mu, st, 'grid')
    st.outcome(str(case['grid']), case['prob'])
    st.trace()


def grid_cases(tier):
    shapes = [(1, 2), (1, 3), (3, 1), (2, 2)] + ([(2, 3), (1, 5)] if tier == 'thorough' else [])
    for R, C in shapes:
        for k, syms in enumerate(itertools.product('.S#*G', repeat=R * C)):
            if 'S' in syms and 'G' in syms:
                grid = [''.join(syms[i * C:(i + 1) * C]) for i in range(R)]
                for prob in (.75, 1.) if R * C <= 4 else (.75,):
                    yield {'grid': grid, 'prob': prob, 'newline': bool((k + R) % 2)}
    big = [['S.#', '.*.', '..G'], ['#####', '#S.G#', '#.*.#', '#####'], ['SSS', '#G#'], ['..S', '.G*', 'S#.', '...']]
    for g in big:
        for prob in (0., .25, .5, 1.):
            for nl in (False, True):
                yield {'grid': g, 'prob': prob, 'newline': nl}


def taxi_model(lines, prob, rew):
    cells = [(i, j) for i, l in enumerate(lines) for j, c in enumerate(l) if c != '#']
    at = {c: k for k, c in enumerate(cells)}
    sym = {c: lines[c[0]][c[1]] for c in cells}
    pas = [c for c in cells if sym[c] == 'F']
    sets = list(itertools.product([0, 1], repeat=len(pas)))
    N = len(cells)
    model = []
    for si, col in enumerate(sets):
        for c in cells:
            if sym[c] == 'G' or (sym[c] == 'F' and not col[pas.index(c)]):
                model.append([])
                continue

            def move(d):
                n = (c[0] + d[0], c[1] + d[1])
                if n not in at:
                    return si * N + at[c], 0., False
                k = list(col)
                if sym[n] == 'F':
                    k[pas.index(n)] = 1
                idx = sets.index(tuple(k)) * N + at[n]
                return idx, float(rew[sum(col)]) if sym[n] == 'G' else 0., sym[n] == 'G'
            acts = []
            for d in DIRS:
                e = {}
                perp = [(d[1], d[0]), (-d[1], -d[0])]
                for dd, p in ((d, prob), (perp[0], (1 - prob) / 2), (perp[1], (1 - prob) / 2)):
                    m = move(dd)
                    e[m] = e.get(m, 0.) + p
                acts.append(e)
            model.append(acts)
    ss = [at[c] for c in cells if sym[c] == 'S']
    return model, {k: 1. / len(ss) for k in ss}


def run_taxi(case, st):
    path = write(case['grid'], case['newline'])
    nf = ''.join(case['grid']).count('F')
    rew = [1., 3., 7., 15.][:nf + 1]
    try:
        env = generate_taxi(path, prob=case['prob'], rew=tuple(rew), gamma=.75, horizon=44)
    finally:
        os.remove(path)
    expect(env.info.gamma == .75 and env.info.horizon == 44, 'discount or horizon')
    model, mu = taxi_model(case['grid'], case['prob'], rew)
    compare(env, model, mu, st, 'taxi')
    st.outcome(str(case['grid']), case['prob'])
    st.trace()


def taxi_cases(tier):
    shapes = [(1, 3), (2, 2), (3, 1)] + ([(1, 4), (2, 3)] if tier == 'thorough' else [])
    for R, C in shapes:
        for k, syms in enumerate(itertools.product('.S#FG', repeat=R * C)):
            if 'S' in syms and 'G' in syms and 1 <= syms.count('F') <= (2 if R * C < 5 else 3):
                grid = [''.join(syms[i * C:(i + 1) * C]) for i in range(R)]
                yield {'grid': grid, 'prob': .75 if k % 3 else 1., 'newline': bool(k % 2)}
    for g in (['SF', 'FG', '.F'], ['S.F', '#.G', 'F..'], ['FSF', '..G']):
        for prob in (0., .5, 1.):
            yield {'grid': g, 'prob': prob, 'newline': True}


def run_chain(case, st):
    n, goals, prob = case['n'], case['goals'], case['prob']
    mu = None if case['mu'] is None else np.array(case['mu'])
    env = generate_simple_chain(state_n=n, goal_states=list(goals), prob=prob, rew=2., mu=mu, gamma=.75, horizon=22)
    expect(env.info.gamma == .75 and env.info.horizon == 22, 'discount or horizon')
    model = []
    for s in range(n):
        acts = []
        for d in (1, -1):
            t = s + d
            e = {}
            if 0 <= t < n:
                e[(t, 2. if t in goals else 0., False)] = prob
                e[(s, 0., False)] = 1. - prob
            else:
                e[(s, 0., False)] = 1.
            acts.append(e)
        model.append(acts)
    m = {s: 1. / n for s in range(n)} if mu is None else dict(enumerate(case['mu']))
    compare(env, model, m, st, 'chain')
    st.outcome(n, str(goals), prob)
    st.trace()


def chain_cases(tier):
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for k in range(2 ** n):
            goals = [i for i in range(n) if k >> i & 1]
            for prob in (.25, .5, .75, 1.):
                for mu in (None, [1.] + [0.] * (n - 1), [.5] + [0.] * (n - 2) + [.5]):
                    yield {'n': n, 'goals': goals, 'prob': prob, 'mu': mu}


FAMILIES = [
    Family('models', plain_cases, run_plain, 'all two-state two-action models over a probability lattice (and three-state '
           'ones with an absorbing state), all random outcomes of one and two steps'),
    Family('grid-world', grid_cases, run_grid, 'all grids of 1x2, 1x3, 3x1, 2x2 (2x3, 1x5) and some larger, with and '
           'without trailing newline', chunk=16),
    Family('taxi', taxi_cases, run_taxi, 'all grids of 1x3, 3x1, 2x2 (1x4, 2x3) with passengers', chunk=8),
    Family('chain', chain_cases, run_chain, 'all goal sets of chains of 2..4 (5) states'),
]
