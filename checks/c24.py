"""C24: episodic policy search: black-box optimisation, policy gradient, search distributions, optimizers."""
import copy
import itertools
import warnings

import numpy as np
import torch
from scipy.optimize import minimize

from mushroom_rl.algorithms.policy_search import (MORE, PGPE, REINFORCE, REPS, RWR, ConstrainedREPS, GPOMDP, ePPO,
                                                  eNAC)
from mushroom_rl.algorithms.policy_search.black_box_optimization.context_builder import ContextBuilder
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Core, Dataset, DatasetInfo, Environment, VectorCore, VectorizedEnvironment
from mushroom_rl.distributions import (CholeskyGaussianTorchDistribution, DiagonalGaussianTorchDistribution, Distribution,
                                       GaussianCholeskyDistribution, GaussianDiagonalDistribution, GaussianDistribution)
from mushroom_rl.policy import DeterministicPolicy, GaussianPolicy, ParametricPolicy
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mc.harness import Family, expect
from mc.stubs import info as mdp_info

ASSUMPTIONS = ['the sampler of the search distribution is replaced by a script in the end-to-end family (draws are decided by C24/distributions '
               'and C12 style families); returns are discounted sums',
               'the dual problems of REPS, constrained REPS and MORE are solved numerically: the multipliers are compared through the '
               'resulting distribution, with a tolerance',
               'the episodic PPO step is checked with the whole batch in one minibatch']
warnings.filterwarnings('ignore')
GAMMA = .9


def close(a, b, what, rtol=1e-6, atol=1e-8):
    a, b = np.asarray(a, dtype=float).reshape(-1), np.asarray(b, dtype=float).reshape(-1)
    expect(a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True), what, a.tolist(), 'expected', b.tolist())


# --------------------------------------------------------------------------------------------------- reference updates
def ref_mle(kind, theta, w):
    w = np.asarray(w, float)
    mu = (w[:, None] * theta).sum(0) / w.sum()
    if kind == 'fixed':
        return mu
    z = w.sum() - (w ** 2).sum() / w.sum()
    d = theta - mu
    if kind == 'diag':
        return np.concatenate([mu, np.sqrt((w[:, None] * d ** 2).sum(0) / z)])
    S = sum(wi * np.outer(di, di) for wi, di in zip(w, d)) / z
    L = np.linalg.cholesky(S)
    return np.concatenate([mu, L[np.tril_indices(len(mu))]])


def ref_eta(J, eps):
    """argmin over eta >= eps32 of eta*eps + eta*log mean exp(r/eta), convex: bisection on the derivative."""
    r = J - J.max()

    def g(eta):
        e = np.exp(r / eta)
        return eps + np.log(e.mean()) - (e * r).mean() / (eta * e.mean())
    lo, hi = float(np.finfo(np.float32).eps), 1e6
    if g(lo) >= 0:
        return lo
    if g(hi) <= 0:
        return hi
    for _ in range(200):
        mid = .5 * (lo + hi)
        if g(mid) < 0:
            lo = mid
        else:
            hi = mid
    return .5 * (lo + hi)


def ref_dlog(kind, p, n, th, ctx=None, sigma=None):
    if kind == 'ctx':
        return (th - p * ctx) * ctx
    d = th - p[:n]
    if kind == 'fixed':
        return np.linalg.solve(sigma, d)
    if kind == 'diag':
        s = p[n:]
        return np.concatenate([d / s ** 2, d ** 2 / s ** 3 - 1 / s])
    L = np.zeros((n, n))
    L[np.tril_indices(n)] = p[n:]
    z = np.linalg.solve(L, d)
    G = np.linalg.solve(L.T, np.outer(z, z)) - np.diag(1 / np.diag(L))
    return np.concatenate([np.linalg.solve(L.T, z), G[np.tril_indices(n)]])


def ref_grad(dl, J):
    dl, J = np.asarray(dl), np.asarray(J, float)
    with np.errstate(all='ignore'):
        b = (J[:, None] * dl ** 2).mean(0) / (dl ** 2).mean(0)
    b[~np.isfinite(b)] = 0
    return (dl * (J[:, None] - b)).mean(0)


class RefOpt:
    """SGD, Adam and the adaptive-step rule, written independently."""

    def __init__(self, kind, maximize=True, **k):
        self.kind, self.k, self.sign = kind, k, 1. if maximize else -1.
        self.t, self.m, self.v = 0, 0., 0.

    def __call__(self, p, g, nat=None):
        if self.kind == 'sgd':
            return p + self.sign * self.k['lr'] * g
        if self.kind == 'adaptive':
            n = g if nat is None else nat
            lam = max(np.sqrt(float(g @ n) / (4 * self.k['eps'])), 1e-8)
            return p + self.sign * n / (2 * lam)
        g = self.sign * g
        self.t += 1
        b1, b2 = self.k['beta1'], self.k['beta2']
        self.m = b1 * self.m + (1 - b1) * g
        self.v = b2 * self.v + (1 - b2) * g * g
        return p + self.k['lr'] * (self.m / (1 - b1 ** self.t)) / (np.sqrt(self.v / (1 - b2 ** self.t)) + self.k['eps'])


def real_opt(kind, maximize=True, **k):
    return {'sgd': SGDOptimizer, 'adam': AdamOptimizer, 'adaptive': AdaptiveOptimizer}[kind](maximize=maximize, **k)


OPTS = {'sgd': dict(lr=.05), 'adam': dict(lr=.05, beta1=.8, beta2=.9, eps=1e-6), 'adaptive': dict(eps=.02)}

MU = np.array([.5, -1.])
SIG = {'fixed': np.array([[1., .5], [.5, 2.]]), 'diag': np.array([.7, 1.5]), 'chol': np.array([[1., .5], [.5, 2.]])}


class CtxGaussian(Distribution):
    """Unit-variance Gaussian whose mean is K * context: a context-dependent search distribution."""

    def __init__(self, K):
        super().__init__(context_shape=(1,))
        self.K = np.array(K, float)

    def mean(self, context=None):
        return np.asarray(context)[..., :1] * self.K

    def diff_log(self, theta, context=None):
        expect(np.shape(theta) == (2,) and np.shape(context) == (1,), 'diff_log of a sample gets', np.shape(theta), np.shape(context))
        return (theta - self.K * context) * context

    def get_parameters(self):
        return self.K.copy()

    def set_parameters(self, rho):
        self.K = np.array(rho)

    @property
    def parameters_size(self):
        return 2


def dist(kind):
    if kind == 'fixed':
        return GaussianDistribution(MU.copy(), SIG['fixed'].copy())
    if kind == 'diag':
        return GaussianDiagonalDistribution(MU.copy(), SIG['diag'].copy())
    if kind == 'ctx':
        return CtxGaussian([.5, -1.])
    return GaussianCholeskyDistribution(MU.copy(), SIG['chol'].copy())


class First(ContextBuilder):
    """The context is the second component of the initial observation."""

    def __call__(self, initial_state, **episode_info):
        for k in episode_info:
            if k == 'ep' and np.ndim(initial_state) == 1:
                expect(np.isscalar(episode_info[k]), 'the information of a single episode')
            elif k == 'ep':
                expect(len(episode_info[k]) == len(initial_state), 'information of', len(episode_info[k]), 'environments with',
                       len(initial_state), 'initial states')
                if isinstance(episode_info[k], list):
                    for e, s in zip(episode_info[k], initial_state):
                        expect(e is None or CTX[e % len(CTX)] == s[1], 'the information of an episode comes with the state of another')
        return np.asarray(initial_state)[..., 1:2]


class TablePolicy(ParametricPolicy):
    """The action IS the parameter vector."""

    def __init__(self, n, w=None):
        super().__init__()
        self.w = np.zeros(n) if w is None else w

    def draw_action(self, state, policy_state=None):
        return self.w.copy(), None

    def reset(self):
        return None

    def set_weights(self, weights):
        self.w = np.array(weights, dtype=float)

    def get_weights(self):
        return self.w.copy()

    @property
    def weights_size(self):
        return len(self.w)


def ref_update(alg, kind, p, thetas, J, ctx, opt):
    """The published new distribution parameters."""
    T, J = np.array(thetas, float), np.array(J, float)
    if alg == 'RWR':
        return ref_mle(kind, T, np.exp(.3 * (J - J.max())))
    if alg == 'REPS':
        return ref_mle(kind, T, np.exp((J - J.max()) / ref_eta(J, .5)))
    if alg == 'PGPE':
        n = T.shape[1]
        dl = [ref_dlog(kind, p, n, t, None if ctx is None else ctx[i], SIG['fixed']) for i, t in enumerate(T)]
        return opt(p, ref_grad(dl, J))
    raise AssertionError(alg)


def build(alg, kind, info, policy, opt=None):
    d = dist(kind)
    cb = dict(context_builder=First()) if kind == 'ctx' else {}
    if alg == 'RWR':
        return RWR(info, d, policy, beta=.3)
    if alg == 'REPS':
        return REPS(info, d, policy, eps=.5)
    return PGPE(info, d, policy, opt, **cb)


# ------------------------------------------------------------------------------------------------------------- family 1
TH = [np.array([a, b]) for a, b in [(1., -2.), (-.5, .25), (2., 1.), (0., -1.5), (1.5, .5), (-1., 3.), (.25, 2.), (-2., -.75), (.75, 1.25),
                                    (3., 0.), (-.25, -3.), (1.25, -.5)]]
CTX = [1., -.5, 2., .75, -1.5, 1.25, .25, -2., 1.5, .6, -.8, 1.1]


class Scripted:
    """Hands out the script of parameter vectors in the order in which they are asked for."""

    def __init__(self, d):
        self.k = 0
        self.given = []
        self.d = d

        def sample(context=None):
            self.k += 1
            th = TH[(self.k - 1) % len(TH)] + .001 * self.k
            self.given.append((th.copy(), None if context is None else float(np.asarray(context).reshape(-1)[0])))
            return th.copy()
        d.sample = sample


class EpEnv(Environment):
    """Episode k lasts lens[k] steps (or until the horizon); records action, reward and context of every finished episode."""

    def __init__(self, lens, rk, horizon):
        i = mdp_info(horizon, gamma=GAMMA, n_obs=2, n_act=2)
        self.lens, self.rk, self.k, self.t, self.n = lens, rk, -1, 0, 0
        self.done, self.cur = [], None
        super().__init__(i)

    def reset(self, state=None):
        self.k += 1
        self.t = 0
        self.cur = [[], [], CTX[self.k % len(CTX)]]
        return np.array([1., self.cur[2]]), {'ep': self.k}

    def step(self, action):
        self.cur[0].append(np.array(action, float))
        self.n += 1
        r = reward(self.rk, self.n)
        self.cur[1].append(r)
        self.t += 1
        ab = self.t >= self.lens[self.k % len(self.lens)]
        if ab or self.t >= self.info.horizon:
            self.done.append(self.cur)
        return np.array([1., 50. + self.n]), r, bool(ab), {}


class VecEp(VectorizedEnvironment):
    def __init__(self, lens, rk, horizon, n_envs, infoform):
        self.lens, self.rk = lens, rk
        self.k, self.n = -1, 0
        self.cur = [None] * n_envs
        self.ln = [1] * n_envs
        self.done = []
        self.infoform = infoform
        self.obs = np.ones((n_envs, 2))
        super().__init__(mdp_info(horizon, gamma=GAMMA, n_obs=2, n_act=2), n_envs)

    def reset_all(self, env_mask, state=None):
        infos = [{} for _ in range(self._n_envs)]
        for e in range(self._n_envs):
            if env_mask[e]:
                self.k += 1
                c = CTX[self.k % len(CTX)]
                self.cur[e] = [[], [], c]
                self.ln[e] = self.lens[self.k % len(self.lens)]
                self.obs[e] = [1., c]
                infos[e] = {'ep': self.k}
        if self.infoform == 'dict':
            infos = {'ep': np.arange(self._n_envs)}
        return self.obs.copy(), infos

    def step_all(self, env_mask, action):
        r, ab = np.zeros(self._n_envs), np.zeros(self._n_envs, dtype=bool)
        for e in range(self._n_envs):
            if env_mask[e]:
                self.n += 1
                self.obs[e] = [1., 50. + self.n]
                r[e] = reward(self.rk, self.n)
                self.cur[e][0].append(np.array(action[e], float))
                self.cur[e][1].append(r[e])
                ab[e] = len(self.cur[e][1]) >= self.ln[e]
                if ab[e] or len(self.cur[e][1]) >= self.info.horizon:
                    self.done.append(self.cur[e])
        return self.obs.copy(), r, ab, [{} for _ in range(self._n_envs)] if self.infoform == 'list' else {}

    def stop(self):
        pass


REW = [1., -.5, 2., .25, -2., .75, 3., -1.25, .5, 1.75, -3., 4., .125]


def reward(rk, n):
    return REW[(n * (rk + 2) + 3 * rk) % len(REW)]


def episodes(done):
    """(theta, J, context) of the finished episodes, from what the environment saw."""
    out = []
    for acts, rews, c in done:
        for a in acts[1:]:
            expect(np.array_equal(a, acts[0]), 'the parameters changed during an episode', [x.tolist() for x in acts])
        J = sum(GAMMA ** i * r for i, r in enumerate(rews))
        out.append((acts[0], J, c))
    return out


def core_cases(tier):
    horizon = 3
    algs = [('RWR', 'diag'), ('RWR', 'fixed'), ('PGPE', 'diag'), ('PGPE', 'ctx'), ('REPS', 'diag')]
    L = range(1, 5)
    full = tier == 'thorough'
    for alg, kind in algs:
        for n_ep in (3, 4) if not full else (3, 4, 5):
            for lens in itertools.product(L if n_ep < 5 or full else (1, 3), repeat=min(n_ep, 3 if not full else 4)):
                if not full and alg not in ('RWR', 'PGPE') and max(lens) > 3:
                    continue
                for n_envs in (0, 2, 3):
                    for form in (('list', 'dict') if n_envs == 2 else ('list',)):
                        yield [alg, kind, horizon, n_ep, list(lens), n_envs, form]


class Log:
    pass


def core_run(c, st):
    alg, kind, horizon, n_ep, lens, n_envs, form = c
    fits = 2
    rk = len(lens) + n_envs
    env = EpEnv(lens, rk, horizon) if n_envs == 0 else VecEp(lens, rk, horizon, n_envs, form)
    opt, ropt = (real_opt('sgd', **OPTS['sgd']), RefOpt('sgd', **OPTS['sgd']))
    agent = build(alg, kind, env.info, TablePolicy(2), opt)
    p = agent.distribution.get_parameters().copy()
    script = Scripted(agent.distribution)
    marks = []
    core = (Core if n_envs == 0 else VectorCore)(agent, env, callbacks_fit=[lambda d: marks.append(
        (len(env.done), agent.distribution.get_parameters().copy()))])
    core.learn(n_episodes=fits * n_ep, n_episodes_per_fit=n_ep, quiet=True)
    expect(len(marks) == fits, 'number of fits', len(marks))
    eps = episodes(env.done)
    expect(len(eps) == fits * n_ep, 'finished episodes', len(eps))
    used = [e[0] for e in eps]
    for th, cx in script.given:
        m = [e for e in eps if np.array_equal(e[0], th)]
        expect(len(m) == 1, 'parameters drawn from the search distribution were used in', len(m), 'episodes')
        if kind == 'ctx':
            expect(cx == m[0][2], 'parameters drawn for context', cx, 'used in an episode with context', m[0][2])
    expect(len(script.given) == len(used), 'drawn', len(script.given), 'used', len(used))
    prev = 0
    for n, got in marks:
        expect(n - prev == n_ep, 'episodes of a fit', n - prev)
        b = eps[prev:n]
        p = ref_update(alg, kind, p, [x[0] for x in b], [x[1] for x in b], [np.array([x[2]]) for x in b] if kind == 'ctx' else None, ropt)
        close(got, p, 'search distribution after a fit', rtol=2e-3 if alg == 'REPS' else 1e-7)
        p = got
        st.step(n_ep)
        st.state(tuple(np.round(got, 6)))
        prev = n
    # evaluating deterministically plays the mean, and leaves the distribution alone
    agent.set_deterministic()
    env.done = []
    core.evaluate(n_episodes=3, quiet=True)
    for th, J, cx in episodes(env.done):
        m = agent.distribution.mean(np.array([cx])) if kind == 'ctx' else agent.distribution.get_parameters()[:2]
        close(th, m, 'deterministic episodes play the mean of the distribution')
    close(agent.distribution.get_parameters(), p, 'evaluation changes the distribution')
    agent.set_deterministic(False)
    # the same agent in cores of other sizes
    for m in (2, 4, 3, 0, 2):
        env2 = EpEnv(lens, rk, horizon) if m == 0 else VecEp(lens, rk, horizon, m, form)
        script = Scripted(agent.distribution)
        core2 = (Core if m == 0 else VectorCore)(agent, env2)
        p = agent.distribution.get_parameters()
        core2.evaluate(n_episodes=4, quiet=True)
        u = [e[0].tolist() for e in episodes(env2.done)]
        expect(sorted(u) == sorted(t.tolist() for t, _ in script.given), 'after changing the number of environments to', m,
               'episodes used', u, 'drawn', [t.tolist() for t, _ in script.given])
        close(agent.distribution.get_parameters(), p, 'evaluation changes the distribution')
    st.trace()


# ------------------------------------------------------------------------------------------------------------- family 2
def mk_dataset(lens, rews, thetas, ctxs=None, s0=None):
    d = Dataset(DatasetInfo('numpy', None, 100, GAMMA, (2,), float, (2,), float, None), n_steps=sum(lens))
    k = 0
    J = []
    for e, l in enumerate(lens):
        j = 0.
        for t in range(l):
            s = np.array([1., 0. if ctxs is None else ctxs[e] if t == 0 else 7. + k])
            d.append((s, np.zeros(2), rews[k], s + 1, t == l - 1 and e % 2 == 0, t == l - 1), {})
            j += GAMMA ** t * rews[k]
            k += 1
        J.append(j)
        d.append_theta(thetas[e])
    return d, np.array(J)


def update_cases(tier):
    n = 4 if tier == 'thorough' else 3
    for alg, kinds in [('RWR', ['fixed', 'diag', 'chol']), ('REPS', ['fixed', 'diag', 'chol']), ('PGPE', ['fixed', 'diag', 'chol', 'ctx'])]:
        for kind in kinds:
            for J in itertools.product([-2., 0., 1., 5.], repeat=n):
                for shape in range(2 if tier != 'thorough' else 4):
                    yield [alg, kind, list(J), shape]
            # returns very far below the others: their weight vanishes, that of the others stays
            for far in (-60., -3000.) if alg != 'PGPE' else ():
                for J in itertools.product([-2., 0., 1.], repeat=n):
                    for at in range(n + 1):
                        yield [alg, kind, list(J[:at]) + [far] + list(J[at:]) + [.25], 0]


def update_run(c, st):
    alg, kind, vals, shape = c
    n = len(vals) + (1 if kind == 'chol' else 0)
    vals = (vals + [.5])[:n]
    info = mdp_info(10, gamma=GAMMA, n_obs=2, n_act=2)
    for ok in (['sgd', 'adam', 'adaptive'] if alg == 'PGPE' else ['sgd']):
        opt, ropt = real_opt(ok, **OPTS[ok]), RefOpt(ok, **OPTS[ok])
        agent = build(alg, kind, info, TablePolicy(2), opt)
        p = agent.distribution.get_parameters().copy()
        for rnd in range(3):                         # successive fits (stateful optimizer, changing distribution)
            th = [TH[(3 * rnd + 5 * i + shape) % len(TH)] + .01 * rnd for i in range(n)]
            cx = [CTX[(rnd + 2 * i + shape) % len(CTX)] for i in range(n)]
            lens = [1 + (i * (shape + 1) + rnd) % 3 for i in range(n)]
            rews = []
            for i, l in enumerate(lens):
                rews += [vals[(i + rnd) % n] * (1 if t == 0 else .5) for t in range(l)]
            d, J = mk_dataset(lens, rews, th, cx)
            before = [x.copy() for x in d.parse()]
            tc = [t.copy() for t in th]
            agent.fit(d)
            p = ref_update(alg, kind, p, th, J, [np.array([x]) for x in cx] if kind == 'ctx' else None, ropt)
            got = agent.distribution.get_parameters()
            tol = 5e-3 if alg == 'REPS' else 1e-6
            close(got, p, f'{alg} {kind} {ok} fit {rnd}', rtol=tol, atol=1e-3 if alg == 'REPS' else 1e-8)
            expect(all(np.array_equal(x, y) for x, y in zip(before, d.parse())) and
                   all(np.array_equal(x, y) for x, y in zip(th, tc)), 'the fit changed the data it was given')
            p = got.copy()
            st.step()
            st.state(tuple(np.round(got, 6)))
            if not np.all(np.isfinite(p)) or (kind == 'diag' and np.any(np.abs(p[2:]) < 1e-3)) or \
                    (kind == 'chol' and min(abs(p[2]), abs(p[4])) < 1e-3):
                break
    st.trace()


# ------------------------------------------------------------------------------------------ family 3: numerical duals
def kl(mu0, S0, mu1, S1):
    """KL(N0 || N1)"""
    n = len(mu0)
    i1 = np.linalg.inv(S1)
    d = mu1 - mu0
    return .5 * (np.trace(i1 @ S0) - n + np.linalg.slogdet(S1)[1] - np.linalg.slogdet(S0)[1] + d @ i1 @ d)


def ent(S):
    return .5 * (np.linalg.slogdet(S)[1] + len(S) * (np.log(2 * np.pi) + 1))


def moments(kind, p):
    n = 2
    if kind == 'fixed':
        return p[:n], SIG['fixed']
    if kind == 'diag':
        return p[:n], np.diag(p[n:] ** 2)
    L = np.zeros((n, n))
    L[np.tril_indices(n)] = p[n:]
    return p[:n], L @ L.T


def con_new(kind, w, T, mu, S, eta, omg):
    W = w.sum()
    m = (w @ T + eta * mu) / (W + eta)
    if kind == 'fixed':
        return m, S
    d = T - m
    N = (w[:, None] * d).T @ d + eta * S + eta * np.outer(m - mu, m - mu)
    N = N / (W + eta - omg)
    return m, (np.diag(np.diag(N)) if kind == 'diag' else N)


def con_dual(kind, w, T, mu, S, eps, kappa, eta, omg):
    m, N = con_new(kind, w, T, mu, S, eta, omg)
    i = np.linalg.inv(N)
    d = T - m
    ll = -.5 * np.einsum('ij,jk,ik->i', d, i, d) - .5 * np.linalg.slogdet(N)[1] - len(mu) / 2 * np.log(2 * np.pi)
    v = w @ ll + eta * (eps - kl(mu, S, m, N))
    if kind != 'fixed':
        v += omg * (ent(N) - (ent(S) - kappa))
    return v


def ref_con(kind, w, T, p, eps, kappa):
    mu, S = moments(kind, p)
    e = float(np.finfo(np.float32).eps)
    if kind == 'fixed':
        r = minimize(lambda x: con_dual(kind, w, T, mu, S, eps, kappa, x[0], 0.), [1000.], bounds=((e, np.inf),), method='SLSQP')
        return con_dual(kind, w, T, mu, S, eps, kappa, r.x[0], 0.), con_new(kind, w, T, mu, S, r.x[0], 0.)
    r = minimize(lambda x: con_dual(kind, w, T, mu, S, eps, kappa, x[0], x[1]), [1000., 0.], bounds=((e, np.inf), (e, np.inf)), method='SLSQP')
    return r.fun, con_new(kind, w, T, mu, S, r.x[0], r.x[1])


def dual_cases(tier):
    n = 5 if tier == 'thorough' else 4
    for alg, kinds in [('CREPS', ['fixed', 'diag', 'chol']), ('MORE', ['chol'])]:
        for kind in kinds:
            for J in itertools.product([-2., 0., 1., 5.], repeat=n):
                if len(set(J)) > 1:
                    yield [alg, kind, list(J)]


def ref_more(p, T, J, eps, h0, kappa):
    n = 2
    mu, Q = moments('chol', p)
    beta = kappa * (ent(Q) - h0) + h0
    J = (J - J.mean()) / J.std()
    X = np.stack([np.ones(len(T)), T[:, 0], T[:, 1], T[:, 0] ** 2, T[:, 0] * T[:, 1], T[:, 1] ** 2], 1)
    b = np.linalg.pinv(X) @ J
    R = np.array([[b[3], b[4] / 2], [b[4] / 2, b[5]]])
    w, V = np.linalg.eigh(R)
    if np.min(np.abs(w)) < 1e-6:
        return None
    w = np.where(w >= 0, -1e-12, w)
    R = V @ np.diag(w) @ V.T
    aux = J - np.einsum('ij,jk,ik->i', T, R, T)
    bl = np.linalg.pinv(X[:, :3]) @ aux
    r = bl[1:]
    Qi = np.linalg.inv(Q)

    def Ff(eta):
        return np.linalg.inv(eta * Qi - 2 * R), eta * Qi @ mu + r

    def g(x):
        eta, om = x
        F, f = Ff(eta)
        return eta * eps - om * beta + .5 * (f @ F @ f - eta * mu @ Qi @ mu - eta * np.linalg.slogdet(2 * np.pi * Q)[1]
                                             + (eta + om) * np.linalg.slogdet(2 * np.pi * (eta + om) * F)[1])
    e = float(np.finfo(np.float32).eps)
    res = minimize(g, np.ones(2), bounds=((e, np.inf), (e, np.inf)))
    F, f = Ff(res.x[0])
    return F @ f, F * (res.x[0] + res.x[1]), g, (mu, Q, R, r)


def dual_run(c, st):
    alg, kind, vals = c
    info = mdp_info(10, gamma=GAMMA, n_obs=2, n_act=2)
    extra = 6 if alg == 'MORE' else 1
    n = len(vals) + extra
    vals = vals + [.5, -1., 2., -.25, 1.5, .75][:extra]
    d0 = dist(kind)
    eps, kappa, h0 = .4, (.2 if alg == 'CREPS' else .9), -5.
    agent = ConstrainedREPS(info, d0, TablePolicy(2), eps, kappa) if alg == 'CREPS' else MORE(info, d0, TablePolicy(2), eps, h0, kappa)
    p = d0.get_parameters().copy()
    th = [TH[(5 * i + 1) % len(TH)] for i in range(n)]
    lens = [1 + i % 2 for i in range(n)]
    rews = []
    for i, l in enumerate(lens):
        rews += [vals[i] * (1 if t == 0 else .5) for t in range(l)]
    ds, J = mk_dataset(lens, rews, th)
    agent.fit(ds)
    got = moments(kind, agent.distribution.get_parameters())
    mu, S = moments(kind, p)
    T = np.array(th)
    st.step()
    if alg == 'CREPS':
        w = np.exp((J - J.max()) / ref_eta(J, eps))
        _, exp = ref_con(kind, w, T, p, eps, kappa)
        tol = 2e-2
        expect(kl(mu, S, *got) <= eps * 1.05 + 1e-3, 'the update moves by a divergence of', kl(mu, S, *got), 'allowed', eps)
        if kind != 'fixed':
            expect(ent(got[1]) >= ent(S) - kappa * 1.05 - 1e-3, 'the entropy falls by', ent(S) - ent(got[1]), 'allowed', kappa)
    else:
        ref = ref_more(p, T, J, eps, h0, kappa)
        if ref is None:
            st.outcome('degenerate')
            return
        exp = ref[:2]
        tol = 2e-2
        expect(kl(*got, mu, S) <= eps * 1.05 + 1e-3, 'the update moves by a divergence of', kl(*got, mu, S), 'allowed', eps)
        floor = kappa * (ent(S) - h0) + h0
        expect(ent(got[1]) >= floor - 5e-2, 'the entropy', ent(got[1]), 'is below', floor)
    close(got[0], exp[0], f'{alg} {kind}: mean', rtol=tol, atol=tol)
    close(got[1], exp[1], f'{alg} {kind}: covariance', rtol=tol, atol=tol)
    st.state(tuple(np.round(got[0], 4)))
    st.outcome(round(float(got[0][0]), 1))
    st.trace()


# ------------------------------------------------------------------------------------------------- family 4: ePPO
def eppo_cases(tier):
    n = 4 if tier == 'thorough' else 3
    for kind in ('diag', 'chol'):
        for J in itertools.product([-2., 0., 1., 5.], repeat=n):
            for e in (1, 3):
                for ent_c in (0., .1):
                    for lr in (.01, .5):
                        yield [kind, list(J), e, ent_c, lr]


def eppo_run(c, st):
    kind, vals, epochs, ec, lr = c
    info = mdp_info(10, gamma=GAMMA, n_obs=2, n_act=2)
    mu = torch.tensor([.5, -1.], dtype=torch.float64)
    if kind == 'diag':
        d = DiagonalGaussianTorchDistribution(mu.clone(), torch.tensor([.7, 1.5], dtype=torch.float64))
    else:
        d = CholeskyGaussianTorchDistribution(mu.clone(), torch.tensor([[1., .5], [.5, 2.]], dtype=torch.float64))
    agent = ePPO(info, d, TablePolicy(2), {'class': torch.optim.SGD, 'params': {'lr': lr}}, epochs, 64, .2, ent_coeff=ec)
    n = len(vals)
    p = d.get_parameters().detach().double().clone().requires_grad_(True)

    def logp(p, T):
        m = p[:2]
        if kind == 'diag':
            L = torch.diag(torch.exp(p[2:]))
        else:
            L = torch.stack([torch.stack([p[2], torch.zeros((), dtype=torch.float64)]), torch.stack([p[3], p[4]])])
        z = torch.linalg.solve_triangular(L, (T - m).T, upper=False)
        ld = torch.log(torch.abs(torch.diag(L))).sum()
        return -.5 * (z ** 2).sum(0) - ld - np.log(2 * np.pi), ld + np.log(2 * np.pi) + 1

    for rnd in range(2):
        th = [torch.tensor(TH[(5 * i + rnd) % len(TH)]) for i in range(n)]
        lens = [1 + (i + rnd) % 2 for i in range(n)]
        rews = []
        for i, l in enumerate(lens):
            rews += [vals[i] * (1 if t == 0 else .5) for t in range(l)]
        ds, J = mk_dataset(lens, rews, th)
        agent.fit(ds)
        T = torch.stack(th)
        Jt = torch.tensor(J)
        A = (Jt - Jt.mean()) / (Jt.std() + 1e-8)
        old = logp(p, T)[0].detach()
        bad = False
        for _ in range(epochs):
            bad = bad or kind == 'chol' and float(p[[2, 4]].min()) < .1         # left the domain of the distribution
            l, H = logp(p, T)
            ratio = torch.exp(l - old)
            loss = -torch.minimum(ratio * A, torch.clamp(ratio, .8, 1.2) * A).mean() - ec * H
            g, = torch.autograd.grad(loss, p)
            p = (p - lr * g).detach().requires_grad_(True)
            st.step()
        got = agent.distribution.get_parameters().detach().numpy()
        if bad or not torch.isfinite(p).all() or float(p.abs().max()) > 20:
            st.outcome('left the domain')
            break
        close(got, p.detach().numpy(), f'episodic PPO, {kind}, fit {rnd}', rtol=1e-4, atol=1e-4)
        st.state(tuple(np.round(got, 4)))
        p = torch.tensor(got).double().requires_grad_(True)
    st.trace()


# -------------------------------------------------------------------------------------- family 5: policy gradient
def pg_cases(tier):
    L = 3
    ne = 3
    for alg in ('REINFORCE', 'GPOMDP', 'eNAC', 'eNACf'):
        for lens in itertools.chain(*[itertools.product(range(1, L + 1), repeat=k) for k in range(2, ne + (2 if tier == 'thorough' else 1))]):
            for tail in (0, 1, 2):
                for opt in ('sgd', 'adam', 'adaptive'):
                    for rk in range(2 if tier != 'thorough' else 4):
                        yield [alg, list(lens), tail, opt, rk]


def pg_run(c, st):
    alg, lens, tail, ok, rk = c
    info = mdp_info(10, gamma=GAMMA, n_obs=2, n_act=1)
    reg = Regressor(LinearApproximator, input_shape=(2,), output_shape=(1,))
    pol = GaussianPolicy(reg, np.array([[.5]]))
    w = np.array([.3, -.2])
    pol.set_weights(w)
    opt, ropt = real_opt(ok, **OPTS[ok]), RefOpt(ok, **OPTS[ok])
    feats = (lambda x: np.array([1., x[0], x[1] ** 2])) if alg == 'eNACf' else None
    agent = {'REINFORCE': REINFORCE, 'GPOMDP': GPOMDP, 'eNAC': eNAC, 'eNACf': eNAC}[alg](
        info, pol, opt, **({'critic_features': feats} if feats else {}))
    k = rk
    for rnd in range(3):
        all_lens = [1 + (l + 2 * rnd - 1) % 5 for l in lens]
        d = Dataset(DatasetInfo('numpy', None, 100, GAMMA, (2,), float, (1,), float, None), n_steps=sum(all_lens) + tail)
        eps = []
        for e, l in enumerate(all_lens + ([tail] if tail else [])):
            ep = []
            for t in range(l):
                k += 1
                s = np.array([np.cos(1.3 * k), np.sin(.7 * k) + .5])
                a = np.array([.5 * np.cos(2.1 * k) + .2])
                r = reward(rk, k)
                end = t == l - 1 and e < len(all_lens)
                d.append((s, a, r, s + 1, end and e % 2 == 0, end), {})
                ep.append((s, a, r))
            if e < len(all_lens):
                eps.append(ep)
        agent.fit(d)
        got = agent.policy.get_weights()
        # an unfinished tail is not an episode; whether its steps enter the per-step baselines of GPOMDP is left open
        gs = [ref_pg(alg, eps, w, feats, fr) for fr in ([None, ep] if tail and alg == 'GPOMDP' else [None])]
        ws = []
        for g in gs:
            o = copy.deepcopy(ropt)
            ws.append((o(w, g), o))
        w, ropt = min(ws, key=lambda x: np.abs(x[0] - got).max())
        close(got, w, f'{alg} {ok} weights after fit {rnd} on episodes of lengths {all_lens}', rtol=1e-6, atol=1e-7)
        w = got.copy()
        st.step(len(d))
        st.state(tuple(np.round(got, 7)))
    st.trace()


def ref_pg(alg, eps, w, feats, frag):
    def dl(s, a):
        return s * (a[0] - w @ s) / .5
    J = np.array([sum(GAMMA ** t * r for t, (_, _, r) in enumerate(ep)) for ep in eps])
    if alg == 'REINFORCE':
        return ref_grad([sum(dl(s, a) for s, a, _ in ep) for ep in eps], J)
    if alg == 'GPOMDP':
        G = [np.cumsum([dl(s, a) for s, a, _ in ep], axis=0) for ep in eps]
        R = [[GAMMA ** t * r for t, (_, _, r) in enumerate(ep)] for ep in eps]
        Gb, Rb = list(G), list(R)
        if frag:
            Gb = G + [np.cumsum([dl(s, a) for s, a, _ in frag], axis=0)]
            Rb = R + [[GAMMA ** t * r for t, (_, _, r) in enumerate(frag)]]
        out = []
        for i, (g, r) in enumerate(zip(G, R)):
            tot = np.zeros(2)
            for t in range(len(r)):
                num = np.mean([Rb[j][t] * Gb[j][t] ** 2 for j in range(len(Rb)) if t < len(Rb[j])], axis=0)
                den = np.mean([Gb[j][t] ** 2 for j in range(len(Rb)) if t < len(Rb[j])], axis=0)
                b = num / den
                tot = tot + g[t] * (r[t] - b)
            out.append(tot)
        return np.mean(out, axis=0)
    rows = []
    for ep in eps:
        psi = sum(GAMMA ** t * dl(s, a) for t, (s, a, _) in enumerate(ep))
        rows.append(np.concatenate([psi, np.ones(1) if feats is None else feats(ep[0][0])]))
    return (np.linalg.pinv(np.array(rows)) @ J)[:2]


# --------------------------------------------------------------------------------------- family 6: distributions
PTS = [np.array(x) for x in itertools.product([-2., 0., .5, 1.], repeat=2)]
PAR = {'fixed': [[0., 0.], [1., -2.]],
       'diag': [[0., 0., 1., 1.], [1., -2., .5, 2.], [.3, .7, 3., .25]],
       'chol': [[0., 0., 1., 0., 1.], [1., -2., .5, .8, 2.], [.3, .7, 2., -1., .4]]}


def dist_cases(tier):
    for kind in PAR:
        for i in range(len(PAR[kind])):
            for be in ('numpy', 'torch'):
                if be == 'torch' and kind == 'fixed':
                    continue
                yield [kind, i, be, 'point']
            for m in range(2, 4 if tier != 'thorough' else 5):
                for pts in itertools.combinations(range(len(PTS)), m):
                    yield [kind, i, 'numpy', list(pts)]


def npdf(x, mu, S):
    d = x - mu
    return -.5 * d @ np.linalg.solve(S, d) - .5 * np.linalg.slogdet(2 * np.pi * S)[1]


def dist_run(c, st):
    kind, i, be, what = c
    p = np.array(PAR[kind][i])
    if what == 'point' and be == 'torch':
        d = DiagonalGaussianTorchDistribution(torch.zeros(2).double(), torch.ones(2).double()) if kind == 'diag' else \
            CholeskyGaussianTorchDistribution(torch.zeros(2).double(), torch.eye(2).double())
        q = p.copy()
        if kind == 'diag':
            q[2:] = np.log(p[2:])
        d.set_parameters(torch.tensor(q))
        mu, S = moments(kind, p)
        close(d.get_parameters().detach().numpy(), q, 'parameters read back', rtol=1e-5)
        close(d.mean().detach().numpy(), mu, 'mean')
        close(d.entropy().detach().numpy(), ent(S), 'entropy')
        lp = d.log_pdf(torch.tensor(np.array(PTS))).detach().numpy()
        for x, l in zip(PTS, lp):
            close(l, npdf(x, mu, S), 'log density')
            close(d.log_pdf(torch.tensor(x)).detach().numpy(), npdf(x, mu, S), 'log density of one point')
            close(d(torch.tensor(x)).detach().numpy(), np.exp(npdf(x, mu, S)), 'density')
            st.step()
        st.trace()
        return
    d = dist(kind)
    d.set_parameters(p)
    mu, S = moments(kind, p)
    if what == 'point':
        close(d.mean(), mu, 'mean')
        close(d.entropy(), ent(S), 'entropy')
        for x in PTS:
            close(d.log_pdf(x), npdf(x, mu, S), 'log density')
            close(d(x), np.exp(npdf(x, mu, S)), 'density')
            g = d.diff_log(x)
            close(g, ref_dlog(kind, p, 2, x, sigma=SIG['fixed']), 'gradient of the log density')
            close(d.diff(x), np.exp(npdf(x, mu, S)) * g, 'gradient of the density')
            for k in range(len(p)):                     # and the gradient is the derivative of the log density
                h = np.zeros(len(p))
                h[k] = 1e-5
                a, b = moments(kind, p + h), moments(kind, p - h)
                close(g[k], (npdf(x, *a) - npdf(x, *b)) / 2e-5, f'derivative in direction {k}', rtol=1e-4, atol=1e-6)
            st.step()
        close(d.get_parameters(), p, 'reading the distribution changed it')
        st.trace()
        return
    T = np.array([PTS[k] for k in what])
    m = len(T)
    for w in [None] + [np.array(x) for x in itertools.product([.25, 1.], repeat=m)]:
        d.set_parameters(p)
        mu = T.mean(0) if w is None else (w[:, None] * T).sum(0) / w.sum()
        S = np.cov(T, rowvar=False) if w is None else None
        if kind == 'chol':
            V = np.cov(T, rowvar=False, aweights=w)
            if np.linalg.eigvalsh(V)[0] < 1e-9:
                continue
        Tc = T.copy()
        wc = None if w is None else w.copy()
        d.mle(T) if w is None else d.mle(T, w)
        if w is None:
            if kind == 'fixed':
                e = mu
            elif kind == 'diag':
                e = np.concatenate([mu, T.std(0)])
            else:
                e = np.concatenate([mu, np.linalg.cholesky(S)[np.tril_indices(2)]])
        else:
            e = ref_mle(kind, T, w)
        close(d.get_parameters(), e, f'maximum likelihood, weights {w}')
        expect(np.array_equal(T, Tc) and (w is None or np.array_equal(w, wc)), 'the estimate changed its data')
        st.step()
        st.state(tuple(np.round(e, 5)))
    st.trace()


# ------------------------------------------------------------------------------------------- family 7: optimizers
def opt_cases(tier):
    G = [[1., -.5], [0., 2.], [-3., .25], [.5, .5]]
    for kind in OPTS:
        for mx in (True, False):
            for seq in itertools.product(range(len(G)), repeat=4 if tier == 'thorough' else 3):
                for lr in ('const', 'param', 'nat'):
                    if (lr == 'nat') != (kind == 'adaptive') and lr != 'const':
                        continue
                    yield [kind, mx, [G[i] for i in seq], lr]


class Decay:
    """A step size that halves, thirds ... at every use."""

    def __init__(self):
        self.n = 0

    def __call__(self, *a, **k):
        self.n += 1
        return .5 / self.n


def opt_run(c, st):
    kind, mx, gs, lr = c
    k = dict(OPTS[kind])
    kr = dict(k)
    if lr == 'param':
        k['lr'] = Decay()
    o = real_opt(kind, mx, **k)
    r = RefOpt(kind, mx, **kr)
    p = np.array([.5, -1.])
    q = p.copy()
    for n, g in enumerate(gs):
        if lr == 'param':
            r.k['lr'] = .5 / (1 + n)
        g = np.array(g)
        nat = np.array([[2., .5], [.5, 1.]]) @ g if lr == 'nat' else None
        args = (p, g) if nat is None else (p, g, nat)
        keep = [a.copy() for a in args]
        p2 = o(*args)
        expect(all(np.array_equal(a, b) for a, b in zip(args, keep)), 'the optimizer changed the arrays it was given', args, keep)
        q = r(q, g, nat) if nat is not None else r(q, g)
        close(p2, q, f'{kind} maximize={mx} step {n}', rtol=1e-9)
        p = p2
        st.step()
        st.state(kind, mx, tuple(np.round(q, 8)))
    st.trace()


FAMILIES = [
    Family('core', core_cases, core_run,
           '5 algorithm/distribution pairs x episode length patterns 1..4 (horizon 3) x 3-4 (thorough 5) episodes per fit x sequential and 2-3 '
           'parallel environments, two fits, deterministic evaluation, change of the number of environments'),
    Family('updates', update_cases, update_run,
           'RWR, REPS, PGPE x fixed/diagonal/full/contextual distributions x all returns of a 4-value lattice over 3 (thorough 4) episodes x '
           'three successive fits x optimizers'),
    Family('duals', dual_cases, dual_run, 'constrained REPS and MORE: all returns of a 4-value lattice over 4 (thorough 5) episodes'),
    Family('eppo', eppo_cases, eppo_run, 'diagonal and full covariance, all returns of a 4-value lattice over 3 (thorough 4) episodes, 1/3 epochs, '
                                         'entropy bonus, two step sizes, two fits'),
    Family('gradients', pg_cases, pg_run,
           'REINFORCE, GPOMDP, eNAC on every pattern of 2-3 (thorough 4) episode lengths 1..3 with an unfinished tail of 0-2 steps, three fits, '
           'three optimizers'),
    Family('distributions', dist_cases, dist_run,
           'density, entropy, gradients at 16 points for every parameter choice; weighted estimates of all sets of 2-3 (thorough 4) of 16 points'),
    Family('optimizers', opt_cases, opt_run, 'all sequences of 3 (thorough 4) gradients out of 4, ascent/descent, constant and decaying step size'),
]
