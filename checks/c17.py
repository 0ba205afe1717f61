"""C17: the solvers. Finite decision processes over a probability/reward lattice against brute force over all policies,
the tree search of the car on hill solver on every small deterministic graph, LQR closed forms against summation."""
import itertools

import numpy as np

from mushroom_rl.environments import LQR
from mushroom_rl.solvers import lqr as L
from mushroom_rl.solvers.car_on_hill import solve_car_on_hill
from mushroom_rl.solvers.dynamic_programming import value_iteration, policy_iteration
from mc.harness import Family, expect

ASSUMPTIONS = ['the tolerance of value iteration is the distance between its last two iterates, which bounds the error by '
               'gamma * eps / (1 - gamma)',
               'the car on hill solver is claimed only for pairs from which the goal is reachable within the depth, or '
               'that fail at once; otherwise only the sign of its answer is checked']


def evaluate(P, R, g, pol):
    n = len(P)
    A = np.eye(n)
    b = np.zeros(n)
    for s in range(n):
        a = pol[s]
        for t in range(n):
            A[s, t] -= g * P[s][a][t]
            b[s] += P[s][a][t] * R[s][a][t]
    return np.linalg.solve(A, b)


def optimum(P, R, g):
    n, m = len(P), len(P[0])
    return np.max([evaluate(P, R, g, pol) for pol in itertools.product(range(m), repeat=n)], axis=0)


def run_dp(case, st):
    P = np.array(case['P'], dtype=float)
    R = np.array(case['R'], dtype=float)
    P0, R0 = P.copy(), R.copy()
    for g in case['g']:
        opt = optimum(case['P'], case['R'], g)
        for eps in case['eps']:
            v = np.asarray(value_iteration(P, R, g, eps))
            expect(v.shape == (len(P),), 'shape', v.shape)
            bound = eps * (g / (1 - g)) + 1e-9 + 1e-9 * np.abs(opt).max()
            expect(np.max(np.abs(v - opt)) <= bound, 'value iteration', v.tolist(), 'optimal', opt.tolist(), 'gamma', g,
                   'eps', eps)
            st.step()
        v, pol = policy_iteration(P, R, g)
        v, pol = np.asarray(v), np.asarray(pol)
        expect(v.shape == (len(P),) and pol.shape == (len(P),), 'shapes', v.shape, pol.shape)
        expect(all(0 <= int(a) < P.shape[1] and int(a) == a for a in pol), 'policy', pol.tolist())
        ev = evaluate(case['P'], case['R'], g, [int(a) for a in pol])
        expect(np.allclose(ev, v, rtol=1e-9, atol=1e-9), 'policy iteration: values', v.tolist(), 'of its policy are',
               ev.tolist(), 'gamma', g)
        expect(np.allclose(v, opt, rtol=2e-5, atol=1e-6), 'policy iteration', v.tolist(), 'optimal', opt.tolist(), 'gamma', g)
        st.step()
        st.outcome(tuple(np.round(opt, 6)))
    expect(np.array_equal(P, P0) and np.array_equal(R, R0), 'the solvers changed the model')
    st.state(str(case))
    st.trace()


def dists(n, lattice, absorbing=True):
    out = [[0.] * n] if absorbing else []
    for c in itertools.product(range(lattice + 1), repeat=n):
        if sum(c) == lattice:
            out.append([x / lattice for x in c])
    return out


def cases_dp(tier):
    th = tier == 'thorough'
    G = [0., .5, .9, .99]
    E = [1e-1, 1e-6]
    # two states, two actions: every model over halves (with the absorbing row), rewards -1/0/2 per (s, a)
    d2 = dists(2, 2)
    rs = [-1., 0., 2.]
    for rows in itertools.product(d2, repeat=4):
        for r in itertools.product(rs if th else [-1., 2.], repeat=4):
            P = [[rows[0], rows[1]], [rows[2], rows[3]]]
            R = [[[r[0]] * 2, [r[1]] * 2], [[r[2]] * 2, [r[3]] * 2]]
            yield dict(P=P, R=R, g=G if th else [0., .9], eps=E)
    # rewards on next states: a reward that depends on where one lands
    for rows in itertools.product(d2[1:], repeat=2):
        for r in itertools.product([0., 1.], repeat=4):
            P = [[rows[0], rows[1]], [rows[1], rows[0]]]
            R = [[[r[0], r[1]], [r[2], r[3]]], [[r[3], r[2]], [r[1], r[0]]]]
            yield dict(P=P, R=R, g=G, eps=E)
    # three states, two actions: deterministic or absorbing moves, reward when entering state 2 or leaving it
    d3 = [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]] + ([[.5, 0., .5]] if th else [])
    for rows in itertools.product(d3, repeat=6):
        P = [[rows[0], rows[1]], [rows[2], rows[3]], [rows[4], rows[5]]]
        R = [[[0., 0., 1.], [-.5, 0., 1.]], [[0., 0., 1.], [0., .25, 2.]], [[1., 0., 0.], [0., 0., 0.]]]
        yield dict(P=P, R=R, g=[.9], eps=[1e-6])
    # one state, one action, many actions
    for m in (1, 2, 3):
        for r in itertools.product(rs, repeat=m):
            for p in ([0.], [1.]):
                yield dict(P=[[p] * m], R=[[[x] for x in r]], g=G, eps=E)


# ---------------------------------------------------------------- tree search
class Graph:
    """Deterministic moves on states 0..n-1; target 'G' gives 1, 'F' gives -1, others 0."""

    def __init__(self, moves):
        self.moves = moves
        self.s = None

    def reset(self, state=None):
        self.s = int(state[0])
        return np.array([self.s]), {}

    def step(self, action):
        t = self.moves[self.s][int(action[0])]
        if t == 'G':
            return np.array([9]), 1., True, {}
        if t == 'F':
            return np.array([8]), -1., True, {}
        self.s = t
        return np.array([t]), 0., False, {}


def run_tree(case, st):
    moves, D = case['m'], case['D']
    n = len(moves)
    sa = [(s, a) for s in range(n) for a in range(2)]
    q = solve_car_on_hill(Graph(moves), np.array([[s] for s, a in sa]), np.array([[a] for s, a in sa]), .5, D)
    for (s, a), v in zip(sa, q):
        # least number of steps to the goal
        front, k, best = {moves[s][a]}, 1, None
        while k < D:
            if 'G' in front:
                best = k
                break
            front = {moves[x][b] for x in front if x not in ('G', 'F') for b in range(2)}
            k += 1
            if not front:
                break
        if best is not None:
            expect(abs(v - .5 ** (best - 1)) < 1e-12, 'state', s, 'action', a, 'value', v, 'steps to the goal', best)
        elif moves[s][a] == 'F':
            expect(v == -1., 'state', s, 'action', a, 'fails at once, value', v)
        else:
            expect(-1 <= v <= 0, 'state', s, 'action', a, 'cannot reach the goal in', D, 'value', v)
        st.step()
        st.outcome(best)
    st.state(str(case))
    st.trace()


def cases_tree(tier):
    n = 3
    tg = list(range(n)) + ['G', 'F']
    D = 6 if tier == 'thorough' else 5
    for m in itertools.product(tg, repeat=2 * n):
        yield dict(m=[list(m[2 * i:2 * i + 2]) for i in range(n)], D=D)


# ---------------------------------------------------------------- LQR
def returns(lqr, K, Sigma, s, a=None, T=600):
    """-sum of discounted expected costs of u = -K x + noise from s (first action a)."""
    A, B, Q, R, g = lqr.A, lqr.B, lqr.Q, lqr.R, lqr.info.gamma
    m = np.array(s, dtype=float)
    C = np.zeros((len(m), len(m)))
    tot, w = 0., 1.
    for t in range(T):
        if t == 0 and a is not None:
            u, cu, Cx = np.array(a, dtype=float), np.zeros((B.shape[1],) * 2), A @ C @ A.T
        else:
            u, cu = -K @ m, K @ C @ K.T + Sigma
            F = A - B @ K
            Cx = F @ C @ F.T + B @ Sigma @ B.T
        tot -= w * (m @ Q @ m + np.trace(Q @ C) + u @ R @ u + np.trace(R @ cu))
        m = A @ m + B @ u
        C = Cx
        w *= g
    return tot


def mats():
    A1 = [np.array([[1.]]), np.array([[.5]]), np.array([[1.1]])]
    B1 = [np.array([[1.]]), np.array([[-.5]]), np.array([[1., .3]])]
    for A, B in itertools.product(A1, B1):
        yield A, B
    A2 = [np.eye(2), np.array([[1., .1], [0., 1.]]), np.array([[.9, -.3], [.2, .8]])]
    B2 = [np.eye(2), np.array([[0.], [1.]]), np.array([[1., .2], [-.4, .5]])]
    for A, B in itertools.product(A2, B2):
        yield A, B


MATS = list(mats())


def weights(n, kind):
    if kind == 0:
        return np.eye(n)
    if kind == 1:
        return np.diag([.9] + [.1] * (n - 1))
    M = .2 * np.ones((n, n)) + np.diag(np.arange(1., n + 1))
    return M


def run_lqr(case, st):
    A, B = MATS[case['m']]
    n, m = B.shape
    env = LQR(A.copy(), B.copy(), weights(n, case['q']), weights(m, case['r']), gamma=case['g'])
    g = case['g']
    Sigma = weights(m, case['S']) * .1
    # optimal gain: it satisfies the Riccati equation and beats its neighbours
    K = np.asarray(L.compute_lqr_feedback_gain(env))
    expect(K.shape == (m, n), 'gain shape', K.shape)
    P = np.eye(n)
    for _ in range(3000):
        Ko = g * np.linalg.solve(env.R + g * B.T @ P @ B, B.T @ P @ A)
        F = A - B @ Ko
        P = env.Q + Ko.T @ env.R @ Ko + g * F.T @ P @ F
    expect(np.allclose(K, Ko, rtol=1e-4, atol=1e-5), 'feedback gain', K.tolist(), 'optimal', Ko.tolist())
    st.step()
    pts = [np.array([1., -.5][:n]), np.array([0., 2.][:n]), np.array([-1., .3][:n])]
    acts = [np.array([.5, 1.][:m]), np.array([0., -1.][:m]), np.array([2., .1][:m])]
    for k in range(case['nk']):
        Kx = Ko + .1 * k * (np.arange(m * n).reshape(m, n) - 1) / (m * n)
        if np.max(np.abs(np.linalg.eigvals(A - B @ Kx))) * np.sqrt(g) > .97:
            continue
        Kin = Kx.copy()
        ref = np.array([returns(env, Kx, 0 * Sigma, s) for s in pts])
        expect(np.allclose(np.ravel(L.compute_lqr_V(np.array(pts), env, Kin)), ref, rtol=1e-6, atol=1e-8), 'V of a batch',
               np.ravel(L.compute_lqr_V(np.array(pts), env, Kin)).tolist(), 'summed', ref.tolist())
        refS = np.array([returns(env, Kx, Sigma, s) for s in pts])
        expect(np.allclose(np.ravel(L.compute_lqr_V_gaussian_policy(np.array(pts), env, Kin, Sigma)), refS, rtol=1e-6,
                           atol=1e-8), 'V with noise',
               np.ravel(L.compute_lqr_V_gaussian_policy(np.array(pts), env, Kin, Sigma)).tolist(), 'summed', refS.tolist())
        refQ = np.array([returns(env, Kx, 0 * Sigma, s, a) for s, a in zip(pts, acts)])
        expect(np.allclose(np.ravel(L.compute_lqr_Q(np.array(pts), np.array(acts), env, Kin)), refQ, rtol=1e-6, atol=1e-8),
               'Q of a batch', np.ravel(L.compute_lqr_Q(np.array(pts), np.array(acts), env, Kin)).tolist(), refQ.tolist())
        refQS = np.array([returns(env, Kx, Sigma, s, a) for s, a in zip(pts, acts)])
        expect(np.allclose(np.ravel(L.compute_lqr_Q_gaussian_policy(np.array(pts), np.array(acts), env, Kin, Sigma)), refQS,
                           rtol=1e-6, atol=1e-8), 'Q with noise')
        for s, v, vs in zip(pts, ref, refS):
            expect(np.allclose(np.ravel(L.compute_lqr_V(s, env, Kin)), [v], rtol=1e-6, atol=1e-8), 'V of one state')
            Pm = np.asarray(L.compute_lqr_P(env, Kin))
            expect(np.allclose(-s @ Pm @ s, v, rtol=1e-6, atol=1e-8), 'P')
        # gradients against central differences of the summed returns
        h = 1e-5
        num, numq = np.zeros((len(pts), m * n)), np.zeros((len(pts), m * n))
        for i in range(m * n):
            d = np.zeros(m * n)
            d[i] = h
            d = d.reshape(m, n)
            for j, s in enumerate(pts):
                num[j, i] = (returns(env, Kx + d, Sigma, s) - returns(env, Kx - d, Sigma, s)) / (2 * h)
                numq[j, i] = (returns(env, Kx + d, Sigma, s, acts[j]) - returns(env, Kx - d, Sigma, s, acts[j])) / (2 * h)
        for j, s in enumerate(pts):
            gr = np.ravel(L.compute_lqr_V_gaussian_policy_gradient_K(s, env, Kin, Sigma))
            expect(np.allclose(gr, num[j], rtol=1e-4, atol=1e-4), 'gradient of V', gr.tolist(), num[j].tolist())
            gq = np.ravel(L.compute_lqr_Q_gaussian_policy_gradient_K(s, acts[j], env, Kin, Sigma))
            expect(np.allclose(gq, numq[j], rtol=1e-4, atol=1e-4), 'gradient of Q', gq.tolist(), numq[j].tolist())
        gb = np.asarray(L.compute_lqr_V_gaussian_policy_gradient_K(np.array(pts), env, Kin, Sigma))
        expect(gb.shape == num.shape and np.allclose(gb, num, rtol=1e-4, atol=1e-4), 'gradient of V of a batch')
        gb = np.asarray(L.compute_lqr_Q_gaussian_policy_gradient_K(np.array(pts), np.array(acts), env, Kin, Sigma))
        expect(gb.shape == num.shape and np.allclose(gb, numq, rtol=1e-4, atol=1e-4), 'gradient of Q of a batch')
        expect(np.array_equal(Kin, Kx), 'the gain was changed')
        st.step()
        st.outcome(tuple(np.round(ref, 6)))
        st.state(case['m'], case['q'], case['r'], g, k, case['S'])
    st.trace()


def cases_lqr(tier):
    th = tier == 'thorough'
    for m in range(len(MATS)):
        for q, r in itertools.product(range(3), repeat=2):
            for g in ((.5, .9) if th else (.9,)):
                for S in (range(3) if th else (2,)):
                    yield dict(m=m, q=q, r=r, g=g, S=S, nk=4 if th else 2)


FAMILIES = [
    Family('dynamic_programming', cases_dp, run_dp, 'every decision process with 2 states, 2 actions over half-probabilities '
           'and absorbing rows with rewards per pair, with rewards per next state, 3 states with deterministic moves, 1 state '
           'with up to 3 actions; discounts 0 to .99, two accuracies', chunk=64),
    Family('tree_search', cases_tree, run_tree, 'every deterministic graph of 3 states, 2 actions, goal and failure', chunk=256),
    Family('lqr', cases_lqr, run_lqr, '18 dynamics (1 and 2 dimensions, 1 and 2 controls, not symmetric) x 9 weight pairs x '
           'gains around the optimal one, single states and batches', chunk=2),
]
