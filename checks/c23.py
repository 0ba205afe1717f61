"""C23: parameter vectors of policies, distributions and approximators: round trip, placement, no sharing."""
import itertools

import numpy as np
import torch

from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import CMAC, LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.distributions import (CholeskyGaussianTorchDistribution, DiagonalGaussianTorchDistribution, GaussianCholeskyDistribution,
                                       GaussianDiagonalDistribution, GaussianDistribution)
from mushroom_rl.features import Features
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.policy import (BoltzmannTorchPolicy, ClippedGaussianPolicy, DeterministicPolicy, DiagonalGaussianPolicy, GaussianPolicy,
                                GaussianTorchPolicy, OrnsteinUhlenbeckPolicy, RecurrentGaussianTorchPolicy, StateLogStdGaussianPolicy,
                                StateStdGaussianPolicy)
from mushroom_rl.policy.vector_policy import VectorPolicy
from mushroom_rl.utils.torch import TorchUtils
from mc.harness import Family, expect

ASSUMPTIONS = ['networks are linear with a bias; the order of a network\'s weights is that of its parameters',
               'single precision for torch objects']

D = 2
XS = np.array([[1., .5], [-.5, 2.]])
AS = np.array([[.25, -1.], [1.5, .5]])


class Net(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        n, m = input_shape[0], output_shape[0]
        self.w = torch.nn.Parameter(torch.tensor([[(i + 2 * j - 1) / 4 for i in range(n)] for j in range(m)]))
        self.b = torch.nn.Parameter(torch.tensor([j / 8 for j in range(m)]))

    def forward(self, x, a=None):
        y = x.float() @ self.w.T + self.b
        return y if a is None else y.gather(1, a.long())[:, 0]


class RecNet(Net):
    def forward(self, state, policy_state, lengths):
        x = state[torch.arange(len(state)), torch.as_tensor(lengths) - 1].float()
        return x @ self.w.T + self.b + policy_state.float().sum(-1, keepdim=True), policy_state + 1


def tonp(v):
    return v.detach().numpy().copy().astype(float) if isinstance(v, torch.Tensor) else np.array(v, dtype=float)


def lin(w, m, n=D):
    """rows of the linear map described by weights w of a LinearApproximator"""
    return np.asarray(w[:m * n]).reshape(m, n)


def net(w, m, n=D):
    return np.asarray(w[:m * n]).reshape(m, n), np.asarray(w[m * n:m * n + m])


def logn(x, mu, S):
    d = np.asarray(x) - mu
    return float(-.5 * d @ np.linalg.solve(S, d) - .5 * np.log(np.linalg.det(S)) - len(d) / 2 * np.log(2 * np.pi))


def near(a, b, tol=1e-6):
    a, b = tonp(a).reshape(-1), np.asarray(b, dtype=float).reshape(-1)
    return a.shape == b.shape and np.allclose(a, b, rtol=10 * tol, atol=tol)


def sgd(params, loss):
    opt = torch.optim.SGD(list(params), lr=.125)
    opt.zero_grad()
    loss().backward()
    opt.step()


def weights(n, k):
    return np.array([((7 * j + 3 * k + j * j * (k + 1)) % 17 - 8) / 8 for j in range(n)])


class Kind:
    torch_like = False
    tol = 1e-8
    const = 0                       # entries (at the end) that must be positive
    held = ()                       # vectors handed to the constructor

    def get(self, o):
        return o.get_weights()

    def set(self, o, w):
        o.set_weights(w)

    def size(self, o):
        return o.weights_size

    def vec(self, o, k):
        n = self.n
        w = weights(n, k)
        if self.const:
            w[-self.const:] = np.abs(w[-self.const:]) + .5
        return w


class Linear(Kind):
    def __init__(self, m, via, phi=False, given=False):
        self.m, self.via, self.phi, self.given = m, via, phi, given
        self.n = m * D

    def build(self):
        kw = {}
        if self.phi:
            kw['phi'] = Features(n_outputs=2, function=lambda x: np.asarray(x)[..., ::-1])
        if self.given:
            w = weights(self.n, 5).reshape(self.m, D) if self.given == 2 else weights(self.n, 5)
            self.held = [w]
            kw['weights'] = w
        if self.via == 'raw':
            return LinearApproximator(input_shape=(D,), output_shape=(self.m,), **kw)
        if self.via == 'generic':
            return Regressor(LinearApproximator, input_shape=(D,), output_shape=(self.m,), **kw)
        return Regressor(LinearApproximator, input_shape=(D,), n_actions=self.m, output_shape=(self.m,) if self.via == 'q' else (1,), **kw)

    def observe(self, o, w):
        x = XS[:, ::-1] if self.phi else XS
        expect(near(o.predict(XS), x @ lin(w, self.m).T, self.tol), 'predictions with these weights')
        if self.via in ('q', 'action'):
            for a in range(self.m):
                expect(near(o.predict(XS, np.full((2, 1), a)), (x @ lin(w, self.m).T)[:, a], self.tol), 'predictions of an action')

    def change(self, o):
        y = np.stack([np.array([1., -2.]) + j for j in range(self.m)], 1)
        if self.via in ('q', 'action'):
            for a in range(self.m):
                o.fit(XS, np.full((2, 1), a), y[:, a]) if self.via == 'action' else None
        else:
            o.fit(XS, y)


class Cmac(Kind):
    def __init__(self, m, via, given=False):
        self.m, self.via, self.given = m, via, given
        self.n = m * 8
        self.t = Tiles.generate(2, [2, 2], -3 * np.ones(2), 3 * np.ones(2))

    def build(self):
        kw = {}
        if self.given:
            self.held = [weights(8 if self.via == 'action' else self.n, 5)]
            kw['weights'] = self.held[0]
        if self.via == 'raw':
            return CMAC(self.t, output_shape=(self.m,), **kw)
        if self.via == 'generic':
            return Regressor(CMAC, tilings=self.t, input_shape=(D,), output_shape=(self.m,), **kw)
        return Regressor(CMAC, tilings=self.t, input_shape=(D,), n_actions=self.m, output_shape=(1,), **kw)

    def P(self):
        out = []
        for x in XS:
            r = []
            for t in self.t:
                v = np.zeros(t.size)
                v[t(x)] = 1
                r.append(v)
            out.append(np.concatenate(r))
        return np.array(out)

    def observe(self, o, w):
        expect(near(o.predict(XS), self.P() @ lin(w, self.m, 8).T), 'predictions with these weights')

    def change(self, o):
        y = np.stack([np.array([1., -2.]) + j for j in range(self.m)], 1)
        if self.via == 'action':
            other = tonp(o.get_weights())[8:]
            o.fit(XS, np.full((2, 1), 0), y[:, 0])
            expect(near(o.get_weights()[8:], other), 'training one action changed the weights of another')
        else:
            o.fit(XS, y if self.m > 1 else y[:, 0])


class TorchK(Kind):
    torch_like = True
    tol = 1e-5


class TorchNet(TorchK):
    def __init__(self, m, via, cls):
        self.m, self.via, self.cls = m, via, cls
        self.n = m * D + m

    def build(self):
        kw = dict(network=Net, optimizer={'class': torch.optim.SGD, 'params': {'lr': .125}}, loss=torch.nn.functional.mse_loss)
        if self.via == 'raw':
            return self.cls((D,), (self.m,), **kw)
        if self.via == 'q':
            return Regressor(self.cls, input_shape=(D,), output_shape=(self.m,), n_actions=self.m, **kw)
        return Regressor(self.cls, input_shape=(D,), output_shape=(self.m,), **kw)

    def conv(self, x):
        return torch.tensor(x) if self.cls is TorchApproximator else x

    def observe(self, o, w):
        W, b = net(w, self.m)
        expect(near(o.predict(self.conv(XS)), XS @ W.T + b, self.tol), 'predictions with these weights')

    def change(self, o):
        y = np.stack([np.array([1., -2.]) + j for j in range(self.m)], 1)
        if self.via == 'q':
            o.fit(self.conv(XS), self.conv(np.array([[0], [self.m - 1]])), self.conv(y[:, 0]))
        else:
            o.fit(self.conv(XS), self.conv(y))


class Params(TorchK):
    """the bare utility on a list of parameters of several shapes"""
    n = 4 + 1 + 6

    def build(self):
        return [torch.nn.Parameter(torch.arange(4.).reshape(2, 2)), torch.nn.Parameter(torch.tensor(.5)), torch.nn.Parameter(torch.arange(6.).reshape(1, 3, 2))]

    def get(self, o):
        return TorchUtils.get_weights(o)

    def set(self, o, w):
        TorchUtils.set_weights(o, w)

    def size(self, o):
        return self.n

    def observe(self, o, w):
        expect(near(o[0], w[:4]) and near(o[1], w[4]) and near(o[2], w[5:]) and tuple(o[0].shape) == (2, 2) and tuple(o[1].shape) == ()
               and tuple(o[2].shape) == (1, 3, 2), 'each parameter holds its part')

    def change(self, o):
        sgd(o, lambda: sum((p ** 2).sum() + p.sum() for p in o))


def linreg(m=D):
    return Regressor(LinearApproximator, input_shape=(D,), output_shape=(m,))


SIG = np.array([[1., .25], [.25, .5]])


class NpPolicy(Kind):
    def __init__(self, kind):
        self.kind = kind
        self.n = {'gauss': 4, 'diag': 6, 'std': 8, 'logstd': 8, 'det': 4}[kind]
        self.const = 2 if kind == 'diag' else 4 if kind == 'std' else 0

    def build(self):
        k = self.kind
        if k == 'gauss':
            return GaussianPolicy(linreg(), SIG.copy())
        if k == 'diag':
            self.held = [np.array([.5, 2.])]
            return DiagonalGaussianPolicy(linreg(), self.held[0])
        if k == 'std':
            return StateStdGaussianPolicy(linreg(), linreg(), eps=.25)
        if k == 'logstd':
            return StateLogStdGaussianPolicy(linreg(), linreg())
        return DeterministicPolicy(linreg())

    def observe(self, o, w):
        for x, a in itertools.product(XS, AS):
            mu = lin(w, D) @ x
            if self.kind == 'det':
                expect(near(o.draw_action(x, None)[0], mu), 'action with these weights')
                continue
            if self.kind == 'gauss':
                S = SIG
            elif self.kind == 'diag':
                S = np.diag(w[4:] ** 2)
            elif self.kind == 'std':
                S = np.diag((lin(w[4:], D) @ x) ** 2 + .25)
            else:
                S = np.diag(np.exp(2 * lin(w[4:], D) @ x))
            expect(np.isclose(float(o(x, a)), np.exp(logn(a, mu, S)), rtol=1e-6, atol=1e-12), 'density with these weights')

    def change(self, o):
        if self.kind == 'diag':
            o.set_std(np.array([.75, 1.25]))


class NoisePolicy(TorchK):
    n = 6

    def __init__(self, kind):
        self.kind = kind

    def build(self):
        r = Regressor(TorchApproximator, input_shape=(D,), output_shape=(D,), network=Net, optimizer={'class': torch.optim.SGD, 'params': {'lr': .125}}, loss=torch.nn.functional.mse_loss)
        self.r = r
        if self.kind == 'ou':
            return OrnsteinUhlenbeckPolicy(r, torch.zeros(1), .1, .1)
        return ClippedGaussianPolicy(r, torch.eye(2) * 1e-14, torch.tensor([-50., -50.]), torch.tensor([50., 50.]))

    def observe(self, o, w):
        W, b = net(w, D)
        for x in XS:
            s = torch.tensor(x, dtype=torch.float32)
            a = o.draw_action(s, torch.zeros(2) if self.kind == 'ou' else None)[0]
            expect(near(a, np.clip(W @ x + b, -50, 50), 1e-4), 'action with these weights')

    def change(self, o):
        self.r.fit(torch.tensor(XS), torch.tensor(XS[::-1].copy()))


class TorchPi(TorchK):
    def __init__(self, kind):
        self.kind = kind
        self.n = {'gauss': 8, 'rec': 8, 'boltz': 6, 'sac': 12}[kind]

    def build(self):
        k = self.kind
        if k == 'gauss':
            return GaussianTorchPolicy(Net, (D,), (D,), std_0=.5)
        if k == 'rec':
            return RecurrentGaussianTorchPolicy(policy_state_shape=(3,), network=RecNet, input_shape=(D,), output_shape=(D,), std_0=.5)
        if k == 'boltz':
            return BoltzmannTorchPolicy(Net, (D,), (D,), beta=.5)
        mk = lambda: Regressor(TorchApproximator, input_shape=(D,), output_shape=(D,), network=Net)
        return SACPolicy(mk(), mk(), -np.ones(2), np.ones(2), -2., 1.5)

    def size(self, o):
        return getattr(o, 'weights_size', self.n)

    def logp(self, o):
        s, a = torch.tensor(XS, dtype=torch.float32), torch.tensor(AS, dtype=torch.float32)
        if self.kind == 'gauss':
            return o.log_prob_t(s, a)
        if self.kind == 'rec':
            return o.log_prob_t(s[:, None], a, torch.zeros(2, 3), torch.tensor([1, 1]))
        if self.kind == 'boltz':
            return o.log_prob_t(s, torch.tensor([[0], [1]]))
        d = o.distribution(s)
        return d.log_prob(a).sum(1)

    def observe(self, o, w):
        W, b = net(w, D)
        mu = XS @ W.T + b
        if self.kind in ('gauss', 'rec'):
            S = np.diag(np.exp(2 * w[6:]))
            ref = [logn(a, m, S) for a, m in zip(AS, mu)]
        elif self.kind == 'boltz':
            ref = [mu[i][i] * .5 - np.log(np.exp(mu[i] * .5).sum()) for i in range(2)]
        else:
            W2, b2 = net(w[6:], D)
            ls = np.clip(XS @ W2.T + b2, -2., 1.5)
            ref = [logn(AS[i], mu[i], np.diag(np.exp(2 * ls[i]))) for i in range(2)]
        expect(near(self.logp(o), ref, 1e-4), 'log-density with these weights', tonp(self.logp(o)).tolist(), ref)

    def change(self, o):
        sgd(o.parameters(), lambda: -self.logp(o).mean())


class Dist(Kind):
    def __init__(self, kind):
        self.kind = kind
        self.torch_like = kind.startswith('t')
        self.tol = 1e-5 if self.torch_like else 1e-8
        self.n = {'fixed': 2, 'diag': 4, 'chol': 5, 'tdiag': 4, 'tchol': 5}[kind]

    def build(self):
        mu, sd = np.array([.5, -1.]), np.array([.5, 2.])
        if self.torch_like:
            mu, sd, S = torch.tensor(mu, dtype=torch.float32), torch.tensor(sd, dtype=torch.float32), torch.tensor(SIG, dtype=torch.float32)
        else:
            S = SIG.copy()
        self.held = [mu, sd, S]
        return {'fixed': lambda: GaussianDistribution(mu, S), 'diag': lambda: GaussianDiagonalDistribution(mu, sd),
                'chol': lambda: GaussianCholeskyDistribution(mu, S), 'tdiag': lambda: DiagonalGaussianTorchDistribution(mu, sd),
                'tchol': lambda: CholeskyGaussianTorchDistribution(mu, S)}[self.kind]()

    def get(self, o):
        return o.get_parameters()

    def set(self, o, w):
        o.set_parameters(w)

    def size(self, o):
        return o.parameters_size

    def vec(self, o, k):
        w = weights(self.n, k)
        if self.kind == 'diag':
            w[2:] = np.abs(w[2:]) + .5
        if self.kind in ('chol', 'tchol'):
            w[2], w[4] = abs(w[2]) + .5, abs(w[4]) + .75
            if self.kind == 'chol' and k == 1:
                w[2] = -w[2]                  # gradient steps may turn the sign of a diagonal entry
        return w

    def observe(self, o, w):
        if self.kind == 'fixed':
            S = SIG
        elif self.kind == 'diag':
            S = np.diag(w[2:] ** 2)
        elif self.kind == 'tdiag':
            S = np.diag(np.exp(2 * w[2:]))
        else:
            L = np.array([[w[2], 0.], [w[3], w[4]]])
            S = L @ L.T
        pts = torch.tensor(AS, dtype=torch.float32) if self.torch_like else AS
        for p, q in zip(pts, AS):
            expect(near(o.log_pdf(p), logn(q, w[:2], S), self.tol * 10), 'log-density with these parameters')
            expect(near(o(p), np.exp(logn(q, w[:2], S)), self.tol * 10), 'density with these parameters')
        expect(near(o.mean(), w[:2], self.tol), 'mean')
        expect(near(o.entropy(), .5 * np.log(np.linalg.det(S)) + 1 + np.log(2 * np.pi), self.tol * 10), 'entropy')

    def change(self, o):
        if self.torch_like:
            sgd(o.parameters(), lambda: -o.log_pdf(torch.tensor(AS, dtype=torch.float32)).mean())
        else:
            o.mle(np.array([[1., 2.], [0., .5], [-1., 1.], [2., -1.5]]), np.array([.5, 1., .25, .25]))


class Vector(Kind):
    """one policy per environment: a matrix of weights"""
    def __init__(self, n_envs):
        self.e = n_envs
        self.n = n_envs * 4

    def build(self):
        return VectorPolicy(DeterministicPolicy(linreg()), self.e)

    def vec(self, o, k):
        return weights(self.n, k).reshape(self.e, 4)

    def size(self, o):
        expect(tuple(o.weights_size) == (self.e, 4) and len(o) == self.e, 'declared size of the weights of several policies')
        return self.n

    def observe(self, o, w):
        W = np.asarray(w).reshape(self.e, 4)
        for k in range(2):
            s = np.array([XS[(i + k) % 2] for i in range(self.e)])
            a, ps = o.draw_action(s, None)
            expect(near(a, [lin(W[i], D) @ s[i] for i in range(self.e)]) and ps is None, 'actions with these weights')

    def change(self, o):
        pass


KINDS = {}
for m in (1, 2, 3):
    for via in ('raw', 'generic', 'action', 'q'):
        if m == 1 and via in ('action', 'q'):
            continue
        KINDS['linear-%s-%d' % (via, m)] = lambda m=m, via=via: Linear(m, via)
KINDS['linear-phi'] = lambda: Linear(2, 'generic', phi=True)
KINDS['linear-given'] = lambda: Linear(2, 'raw', given=2)
for m, via in ((1, 'raw'), (2, 'raw'), (2, 'generic'), (2, 'action')):
    KINDS['cmac-%s-%d' % (via, m)] = lambda m=m, via=via: Cmac(m, via)
KINDS['cmac-given'] = lambda: Cmac(1, 'raw', given=True)
KINDS['cmac-action-given'] = lambda: Cmac(2, 'action', given=True)
for nm, cls in (('torch', TorchApproximator), ('nptorch', NumpyTorchApproximator)):
    for m, via in ((1, 'raw'), (2, 'generic'), (3, 'q')):
        KINDS['%s-%s-%d' % (nm, via, m)] = lambda m=m, via=via, cls=cls: TorchNet(m, via, cls)
KINDS['parameters'] = Params
for k in ('gauss', 'diag', 'std', 'logstd', 'det'):
    KINDS['policy-' + k] = lambda k=k: NpPolicy(k)
for k in ('ou', 'clipped'):
    KINDS['policy-' + k] = lambda k=k: NoisePolicy(k)
for k in ('gauss', 'rec', 'boltz', 'sac'):
    KINDS['torchpolicy-' + k] = lambda k=k: TorchPi(k)
for k in ('fixed', 'diag', 'chol', 'tdiag', 'tchol'):
    KINDS['dist-' + k] = lambda k=k: Dist(k)
for e in (1, 2, 3):
    KINDS['vector-%d' % e] = lambda e=e: Vector(e)

FORMS = {'np64': lambda w: np.array(w), 'np32': lambda w: np.array(w, dtype=np.float32), 't32': lambda w: torch.tensor(w, dtype=torch.float32)}


def run_case(case, st):
    K = KINDS[case['k']]()
    o = K.build()
    held = [[v, tonp(v), False] for v in K.held]          # vector, its value, may the caller modify it
    cur = tonp(K.get(o))
    form = FORMS[case['f']]
    tol = 1e-5 if K.torch_like or case['f'] != 'np64' else K.tol
    for op in case['ops']:
        if op[0] == 'S':
            w = K.vec(o, int(op[1]))
            v = form(w)
            K.set(o, v)
            held.append([v, tonp(v), True])
            cur = tonp(w)
        elif op == 'G':
            r = K.get(o)
            expect(near(r, cur, tol), 'reading back', tonp(r).tolist())
            held.append([r, tonp(r), True])
        elif op == 'R':
            K.set(o, K.get(o))                            # writing back what was read changes nothing
        elif op == 'M':
            for h in held:
                if h[2]:
                    h[0] += 1.5
                    h[1] = h[1] + 1.5
        else:
            before = cur
            K.change(o)
            cur = tonp(K.get(o))
            st.outcome(case['k'], 'changed', not np.array_equal(before, cur))
        got = K.get(o)
        expect(near(got, cur, tol), 'the parameters are not those written last', 'after', op, tonp(got).reshape(-1).tolist(), cur.reshape(-1).tolist())
        expect(tonp(got).size == K.n == K.size(o), 'declared size', K.size(o), tonp(got).size)
        for h in held:
            expect(near(h[0], h[1], 1e-5 if K.torch_like else 1e-12), 'a vector the caller holds changed', 'after', op)
        K.observe(o, cur)
        st.step()
        st.state(case['k'], case['f'], repr(case['ops']), op)
    st.trace()


def cases(tier):
    L = 4 if tier == 'quick' else 5                # (a sequence checks all of its prefixes)
    for k in KINDS:
        K = KINDS[k]()
        forms = ('np64', 't32') if K.torch_like else ('np64',)
        if k.startswith('nptorch') or k == 'parameters':
            forms = ('np64', 'np32', 't32')
        if k in ('dist-tdiag', 'dist-tchol'):
            forms = ('t32',)
        for f in forms:
            for ops in itertools.product(['S0', 'S1', 'G', 'M', 'C', 'R'], repeat=L):
                yield {'k': k, 'f': f, 'ops': list(ops)}


FAMILIES = [Family('histories', cases, run_case, lambda t: '%d kinds of object; all sequences of %d operations (write one of two vectors, read, modify held vectors, train, write back)' % (len(KINDS), 4 if t == 'quick' else 5), chunk=64)]
