"""C22: advantage estimators and the targets the on-policy learners give to their critics."""
import itertools

import numpy as np
import torch

from mushroom_rl.algorithms.actor_critic import A2C, PPO, PPO_BPTT, TRPO
from mushroom_rl.core import Dataset, DatasetInfo, MDPInfo
from mushroom_rl.policy import GaussianTorchPolicy
from mushroom_rl.policy.recurrent_torch_policy import RecurrentGaussianTorchPolicy
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.rl_utils.value_functions import compute_advantage, compute_advantage_montecarlo, compute_gae
from mc.harness import Family, expect

ASSUMPTIONS = ['an absorbing transition is also the last of its episode (the interaction loop guarantees it, C01)',
               'the Monte Carlo estimator has no end-of-episode argument: it is claimed for data whose episodes are cut by '
               'absorbing states or by the end of the data only',
               'tensors are single precision']

R_SETS = [[1., 2., 4., 8., 16., 32., 64.], [-1., .5, 0., 3., -2., 1., 7.]]
V_SETS = [[3., -1., .5, 2., 7., -4., 1.25], [0., 10., 0., -3., 1., 1., 0.]]
VN_SETS = [[5., 9., -2., 11., 13., .75, -6.], [10., 0., -3., 1., 1., 0., 2.]]


def flags(c):
    """c: string over 'c' (continue), 't' (truncated), 'a' (absorbing)."""
    return [x == 'a' for x in c], [x in 'at' for x in c]


def ref_gae(c, r, v, vn, g, lam):
    n = len(c)
    adv = [0.] * n
    for k in range(n):
        # textbook: sum over the rest of the episode of (g lam)^i delta_{k+i}
        w = 1.
        for j in range(k, n):
            adv[k] += w * (r[j] + (0. if c[j] == 'a' else g * vn[j]) - v[j])
            w *= g * lam
            if c[j] != 'c':
                break
    return adv


def ref_mc(c, r, v, vn, g):
    n = len(c)
    q = [0.] * n
    for k in range(n):
        w = 1.
        for j in range(k, n):
            q[k] += w * r[j]
            w *= g
            if c[j] != 'c' or j == n - 1:
                if c[j] != 'a':
                    q[k] += w * vn[j]
                break
    return q


class Table:
    """A value function on states 0..n-1 (states) and 100.. (next states); counts nothing, changes nothing."""

    def __init__(self, v, vn):
        self.v, self.vn = v, vn

    def __call__(self, s):
        x = s.reshape(-1).tolist()
        return torch.tensor([[self.v[int(i)] if i < 100 else self.vn[int(i) - 100]] for i in x])


def close(a, b):
    return np.allclose(np.asarray(a, dtype=float).reshape(-1), np.asarray(b, dtype=float), rtol=1e-4, atol=1e-4)


def run_fn(case, st):
    c, k = case['c'], case['k']
    n = len(c)
    r, v, vn = R_SETS[k][:n], V_SETS[k][:n], VN_SETS[k][:n]
    ab, la = flags(c)
    s = torch.arange(n, dtype=torch.float).reshape(n, 1)
    ss = s + 100
    args = dict(V=Table(v, vn), s=s, ss=ss, r=torch.tensor(r), absorbing=torch.tensor(ab))
    for g in case['g']:
        for lam in case['lam']:
            vt, adv = compute_gae(last=torch.tensor(la), gamma=g, lam=lam, **args)
            ref = ref_gae(c, r, v, vn, g, lam)
            expect(tuple(adv.shape) == (n, 1) and tuple(vt.shape) == (n, 1), 'gae shapes', vt.shape, adv.shape)
            expect(close(adv, ref), 'gae', c, 'gamma', g, 'lambda', lam, adv.reshape(-1).tolist(), 'expected', ref)
            expect(close(vt, [a + b for a, b in zip(ref, v)]), 'gae target', vt.reshape(-1).tolist())
            st.step()
        q, adv = compute_advantage(gamma=g, **args)
        ref = [r[i] + (0. if ab[i] else g * vn[i]) for i in range(n)]
        expect(tuple(q.shape) == (n, 1) and tuple(adv.shape) == (n, 1), 'one step shapes', q.shape, adv.shape)
        expect(close(q, ref) and close(adv, [x - y for x, y in zip(ref, v)]), 'one step', c, q.reshape(-1).tolist(), ref)
        if 't' not in c[:-1]:
            q, adv = compute_advantage_montecarlo(gamma=g, **args)
            ref = ref_mc(c, r, v, vn, g)
            expect(tuple(q.shape) == (n, 1) and tuple(adv.shape) == (n, 1), 'monte carlo shapes', q.shape, adv.shape)
            expect(close(q, ref) and close(adv, [x - y for x, y in zip(ref, v)]), 'monte carlo', c, q.reshape(-1).tolist(),
                   'expected', ref)
        st.step(2)
    expect(torch.equal(args['r'], torch.tensor(r)) and torch.equal(args['s'], ss - 100), 'the data was changed')
    st.state(c, k)
    st.outcome(c.count('a'), c.count('t'))
    st.trace()


def cases_fn(tier):
    th = tier == 'thorough'
    for n in range(1, 8 if th else 7):
        for c in itertools.product('cta', repeat=n):
            for k in (0, 1):
                yield dict(c=''.join(c), k=k, g=[0., .9, 1.], lam=[0., .5, 1.])


# ---------------------------------------------------------------- inside the learners
class VNet(torch.nn.Module):
    """Linear in the state (one component), so that the values of the states are known."""

    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.lin = torch.nn.Linear(input_shape[0], output_shape[0])
        with torch.no_grad():
            self.lin.weight.fill_(.5)
            self.lin.bias.fill_(-1.)

    def forward(self, x):
        return self.lin(x.float())


class MuNet(VNet):
    pass


GAMMA = .9


def mdp():
    return MDPInfo(Box(-1e3 * np.ones(1), 1e3 * np.ones(1)), Box(-1e3 * np.ones(1), 1e3 * np.ones(1)), GAMMA, 1000, backend='torch')


def dataset(c, r, s, ns, ps=None, nps=None):
    n = len(c)
    ab, la = flags(c)
    d = Dataset(DatasetInfo('torch', 'cpu', 1000, GAMMA, (1,), torch.float, (1,), torch.float,
                            None if ps is None else (1,)), n_steps=n)
    for i in range(n):
        t = (torch.tensor([s[i]]), torch.tensor([.1 * i - .2]), r[i], torch.tensor([ns[i]]), ab[i], la[i])
        if ps is not None:
            t += (torch.tensor([ps[i]]), torch.tensor([nps[i]]))
        d.append(t, {})
    return d


class Recorder:
    def __init__(self):
        self.targets = []

    def __call__(self, y_hat, y, **kw):
        self.targets.append(y.detach().clone())
        return ((y_hat - y) ** 2).mean()


def run_agent(case, st):
    c, alg = case['c'], case['alg']
    n = len(c)
    r, s, ns = R_SETS[1][:n], V_SETS[0][:n], VN_SETS[0][:n]
    rec = Recorder()
    sgd = dict(class_=None)
    opt = {'class': torch.optim.SGD, 'params': {'lr': 1e-3}}
    critic = dict(network=VNet, optimizer={'class': torch.optim.SGD, 'params': {'lr': 0.}}, loss=rec, input_shape=(1,),
                  output_shape=(1,))
    pol = GaussianTorchPolicy(MuNet, (1,), (1,))
    v = [.5 * x - 1. for x in s]
    vn = [.5 * x - 1. for x in ns]
    fp = dict(n_epochs=1)
    if alg == 'A2C':
        agent = A2C(mdp(), pol, opt, critic, ent_coeff=0., critic_fit_params=fp)
        ref = ref_mc(c, r, v, vn, GAMMA)
    else:
        if alg == 'PPO':
            agent = PPO(mdp(), pol, opt, critic, n_epochs_policy=1, batch_size=2, eps_ppo=.2, lam=case['lam'], critic_fit_params=fp)
        else:
            agent = TRPO(mdp(), pol, critic, lam=case['lam'], critic_fit_params=fp)
        ref = [a + b for a, b in zip(ref_gae(c, r, v, vn, GAMMA, case['lam']), v)]
    for rep in range(2):
        rec.targets.clear()
        agent.fit(dataset(c, r, s, ns))
        expect(len(rec.targets) == 1, 'critic updates', len(rec.targets))
        t = rec.targets[0]
        expect(t.numel() == n and close(t, ref), alg, c, 'critic targets', t.reshape(-1).tolist(), 'expected', ref)
        st.step()
    st.state(c, alg, case['lam'])
    st.outcome(alg, c.count('a'), c.count('t'))
    st.trace()


def cases_agent(tier):
    th = tier == 'thorough'
    for alg in ('PPO', 'TRPO', 'A2C'):
        for n in range(1 if alg == 'A2C' else 2, 6 if th else 5):
            for c in itertools.product('cta', repeat=n):
                c = ''.join(c)
                if alg == 'A2C' and 't' in c[:-1]:
                    continue
                for lam in ((0., .5, 1.) if th and alg != 'A2C' else (.5,)):
                    yield dict(alg=alg, c=c, lam=lam)
    # the Monte Carlo targets of A2C go on after a truncated episode (known finding)
    yield dict(alg='A2C', c='ctc', lam=.5)


# ---------------------------------------------------------------- recurrent learner
class RecV(torch.nn.Module):
    """Value: a non-linear function of the whole (unpadded) sequence and of the hidden state it starts from."""

    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.b = torch.nn.Parameter(torch.zeros(1))

    def forward(self, s, h, lengths):
        out = []
        for i in range(len(s)):
            x = h[i].reshape(-1)[0]
            for j in range(int(lengths[i])):
                x = .5 * x + s[i, j].reshape(-1)[0]
            out.append(x)
        return torch.stack(out).reshape(-1, 1) + self.b


class RecMu(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.v = RecV(input_shape, output_shape)
        self.n = output_shape[0]

    def forward(self, s, h, lengths):
        y = self.v(s, h, lengths)
        return y.repeat(1, self.n), h + 1.


def run_bptt(case, st):
    c, L = case['c'], case['L']
    n = len(c)
    r, s, ns = R_SETS[1][:n], V_SETS[0][:n], VN_SETS[0][:n]
    ps, nps = [100. * i + 7. for i in range(n)], [100. * i + 57. for i in range(n)]
    rec = Recorder()
    critic = dict(network=RecV, optimizer={'class': torch.optim.SGD, 'params': {'lr': 0.}}, loss=rec, input_shape=(1,),
                  output_shape=(1,))
    pol = RecurrentGaussianTorchPolicy(policy_state_shape=(1,), network=RecMu, input_shape=(1,), output_shape=(1,))
    agent = PPO_BPTT(mdp(), pol, {'class': torch.optim.SGD, 'params': {'lr': 0.}}, critic, n_epochs_policy=1, batch_size=n,
                     eps_ppo=.2, lam=case['lam'], dim_env_state=1, critic_fit_params=dict(n_epochs=1), truncation_length=L)

    def val(x, h, i):
        b = i
        while b > 0 and i - b + 1 < L and c[b - 1] == 'c':
            b -= 1
        y = h[b]
        for j in range(b, i + 1):
            y = .5 * y + x[j]
        return y
    v = [val(s, ps, i) for i in range(n)]
    vn = [val(ns, nps, i) for i in range(n)]
    ref = [a + b for a, b in zip(ref_gae(c, r, v, vn, GAMMA, case['lam']), v)]
    agent.fit(dataset(c, r, s, ns, ps, nps))
    t = rec.targets[0]
    expect(t.numel() == n and close(t, ref), c, 'critic targets', t.reshape(-1).tolist(), 'expected', ref)
    st.step()
    st.state(c, L)
    st.outcome(c.count('a'), c.count('t'), L)
    st.trace()


def cases_bptt(tier):
    th = tier == 'thorough'
    for n in range(2, 7 if th else 6):
        for c in itertools.product('cta', repeat=n):
            for L in ((1, 2, 3, 5) if th else (1, 2, 4)):
                yield dict(c=''.join(c), L=L, lam=.5)


FAMILIES = [
    Family('estimators', cases_fn, run_fn, 'every pattern of continuing, truncated and absorbing transitions of length 1 to '
           '6 (7), two sets of rewards and values, 9 pairs of discount and lambda', chunk=32),
    Family('critic_targets', cases_agent, run_agent, 'PPO, TRPO, A2C: every pattern of length 1/2 to 4 (5), two fits in a row',
           chunk=16),
    Family('recurrent', cases_bptt, run_bptt, 'recurrent PPO: every pattern of length 2 to 5 (6), truncation lengths 1 to 4 (5)',
           chunk=16),
]
