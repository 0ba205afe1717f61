"""C30: linear actor-critic learners with traces and compatible features."""
import itertools

import numpy as np

from mushroom_rl.algorithms.actor_critic import COPDAC_Q, StochasticAC, StochasticAC_AVG
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Dataset, DatasetInfo, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.policy import GaussianPolicy, StateLogStdGaussianPolicy
from mushroom_rl.rl_utils.parameters import DecayParameter
from mushroom_rl.rl_utils.spaces import Box
from mc.harness import Family, expect

ASSUMPTIONS = ['the policy gradient of the Gaussian policies is computed independently here (C14 decides the policies themselves)',
               'the average-reward variant moves its estimate by the temporal difference, as published']
GAMMA = .5
X = [np.array([1., -.5]), np.array([.5, 1.]), np.array([-1., .25])]
ACT = [-.5, 1.]


def psi_real():
    return Features(basis_list=PolynomialBasis.generate(1, 2))


def psi_ref(x):
    return np.array([1., x[0], x[1]])


class Rate:
    """A step size as given to the learner, and its reference value at every use."""

    def __init__(self, v, decay):
        self.v, self.decay, self.n = v, decay, 0
        self.real = DecayParameter(v, exp=1.) if decay else v

    def __call__(self):
        self.n += 1
        return self.v / self.n if self.decay else self.v


def mdp(A):
    return MDPInfo(Box(-10 * np.ones(2), 10 * np.ones(2)), Box(-10 * np.ones(A), 10 * np.ones(A)), GAMMA, 100)


def linear(A, w):
    r = Regressor(LinearApproximator, input_shape=(2,), output_shape=(A,))
    r.set_weights(np.array(w, float))
    return r


class Ref:
    def __init__(self, c):
        self.c = c
        A = self.A = c['A']
        n = 2 * A
        self.th = .1 * np.arange(1, n + 1)
        if c['pol'] == 'state':
            self.th = np.concatenate([self.th, -.05 * np.arange(1, n + 1)])
        self.v = np.zeros(3 if c['psi'] else 2)
        self.ev, self.et = np.zeros_like(self.v), np.zeros_like(self.th)
        self.om = np.zeros(n)
        self.rbar = 0.
        self.at, self.av, self.ar = Rate(.25, c['decay']), Rate(.5, c['decay']), Rate(.125, c['decay'])

    def psi(self, s):
        return psi_ref(s) if self.c['psi'] else s

    def G(self, s):
        """A x 2A jacobian of the mean"""
        g = np.zeros((self.A, 2 * self.A))
        for i in range(self.A):
            g[i, 2 * i:2 * i + 2] = s
        return g

    def dlog(self, s, a):
        n = 2 * self.A
        G = self.G(s)
        d = a - G @ self.th[:n]
        if self.c['pol'] == 'fixed':
            return G.T @ (d / .5)
        ls = G @ self.th[n:]
        return np.concatenate([G.T @ (d / np.exp(2 * ls)), G.T @ (d ** 2 / np.exp(2 * ls) - 1)])

    def step(self, s, a, r, ss, ab, last):
        p, pp = self.psi(s), self.psi(ss)
        vn = 0. if ab else self.v @ pp
        c = self.c
        if c['alg'] == 'COPDAC_Q':
            G = self.G(s)
            nu = (a - G @ self.th) @ G
            d = r + GAMMA * vn - (self.v @ p + self.om @ nu)
            th = self.th + self.at() * G.T @ (G @ self.om)
            self.om = self.om + self.ar() * d * nu
            self.v = self.v + self.av() * d * p
            self.th = th
            return
        lam = c['lam']
        if c['alg'] == 'AVG':
            d = r - self.rbar + vn - self.v @ p
            self.rbar += self.ar() * d
            g = lam
        else:
            d = r + GAMMA * vn - self.v @ p
            g = GAMMA * lam
        self.ev = g * self.ev + p
        self.et = g * self.et + self.dlog(s, a)
        self.v = self.v + self.av() * d * self.ev
        self.th = self.th + self.at() * d * self.et
        if last:
            self.new_episode()

    def new_episode(self):
        self.ev, self.et = np.zeros_like(self.v), np.zeros_like(self.th)


def build(c, ref):
    A = c['A']
    n = 2 * A
    mu = linear(A, ref.th[:n])
    psi = psi_real() if c['psi'] else None
    if c['pol'] == 'fixed':
        pol = GaussianPolicy(mu, .5 * np.eye(A))
    else:
        pol = StateLogStdGaussianPolicy(mu, linear(A, ref.th[n:]))
    if c['alg'] == 'COPDAC_Q':
        return COPDAC_Q(mdp(A), pol, mu, ref.at.real, ref.ar.real, ref.av.real, value_function_features=psi)
    if c['alg'] == 'AVG':
        return StochasticAC_AVG(mdp(A), pol, ref.at.real, ref.av.real, ref.ar.real, lambda_par=c['lam'], value_function_features=psi)
    return StochasticAC(mdp(A), pol, ref.at.real, ref.av.real, lambda_par=c['lam'], value_function_features=psi)


def sample(A, k, t):
    i, ai, ni, flag = t
    a = np.array([ACT[ai]] if A == 1 else [ACT[ai], ACT[1 - ai] / 2])
    r = [1., -2., .5, 3., -.25][(k + 2 * i + ai) % 5]
    return X[i], a, r, X[ni], flag == 2, flag > 0


def same(got, exp, what):
    got = np.asarray(got, float).reshape(-1)
    expect(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-9, atol=1e-10), what, got.tolist(), 'expected', exp.tolist())


def run(c, st):
    ref = Ref(c)
    agent = build(c, ref)
    A = c['A']
    seq = [sample(A, k, t) for k, t in enumerate(c['seq'])]
    k = 0
    fresh = True
    for size in split(len(seq), c['split']):
        part = seq[k:k + size]
        if fresh:
            agent.episode_start(part[0][0], {})
            ref.new_episode()
            fresh = False
        d = Dataset(DatasetInfo('numpy', None, 100, GAMMA, (2,), float, (A,), float, None), n_steps=size)
        for t in part:
            d.append(t, {})
        agent.fit(d)
        for t in part:
            ref.step(*t)
            st.step()
        fresh = bool(part[-1][5])
        k += size
        same(agent.policy.get_weights(), ref.th, f'policy weights after {k} transitions')
        if c['alg'] == 'COPDAC_Q':
            same(agent.policy.get_weights(), ref.th, 'the deterministic mean learned')
        st.state(c['alg'], A, c['pol'], c['psi'], c['lam'], tuple(np.round(ref.th, 9)), tuple(np.round(ref.v, 9)))
    st.outcome(tuple(np.round(ref.th, 6)))
    st.trace()


def split(n, how):
    if how == 'ones':
        return [1] * n
    if how == 'all':
        return [n]
    out = []
    while n > 0:
        out.append(min(2, n))
        n -= 2
    return out


def configs():
    for A in (1, 2):
        for psi in (False, True):
            for decay in (False, True):
                yield dict(alg='COPDAC_Q', A=A, pol='fixed', psi=psi, decay=decay, lam=0.)
                for alg in ('SAC', 'AVG'):
                    for pol in ('fixed', 'state'):
                        for lam in (0., .5, 1.):
                            yield dict(alg=alg, A=A, pol=pol, psi=psi, decay=decay, lam=lam)


def cases(tier):
    alpha = list(itertools.product((0, 1), (0, 1), (1, 2), (0, 1, 2)))
    small = [(0, 0, 1, 0), (1, 1, 2, 0), (1, 0, 2, 2), (0, 1, 1, 1)]
    full = tier == 'thorough'
    for cfg in configs():
        for how in ('ones', 'all', 'twos'):
            for seq in itertools.product(small, repeat=5 if full else 4):
                yield dict(cfg, seq=[list(t) for t in seq], split=how)
            if full or not cfg['decay']:
                for seq in itertools.product(alpha, repeat=2):
                    yield dict(cfg, seq=[list(t) for t in seq], split=how)


FAMILIES = [Family('histories', cases, run,
                   'COPDAC-Q and stochastic actor-critic (discounted, average reward), 1-2 action dimensions, with and without features, constant and '
                   'decaying rates, lambda 0/.5/1: all histories of 4 (thorough 5) transitions of a 4-letter alphabet and of 2 of a 24-letter one, given one by '
                   'one, in pairs, all at once (several episodes in one dataset)')]
