"""C31: deep on-policy learners (A2C, PPO, TRPO): every fit against the published update, in double precision."""
import itertools
import warnings

import numpy as np
import torch

from mushroom_rl.algorithms.actor_critic import A2C, PPO, TRPO
from mushroom_rl.algorithms.actor_critic.deep_actor_critic import PPO_BPTT
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.policy import BoltzmannTorchPolicy, GaussianTorchPolicy, RecurrentGaussianTorchPolicy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mc.explore import controlled_random, explore
from mc.harness import Family, expect

warnings.filterwarnings('ignore')
ASSUMPTIONS = ['networks are linear and trained by plain gradient descent; the updates are compared in double precision with a relative '
               'tolerance, and a line-search decision closer to its threshold than single precision resolves may go either way',
               'datasets of at least two transitions with different advantages: standardising equal advantages is undefined',
               'A2C is explored on data without truncated episodes (truncation is the known finding of C22)',
               'PPO fits the critic before the policy and TRPO after it; both take advantages and old probabilities before either']
GAMMA = .5
S, A, NA = 2, 2, 3
CLR, ALR = .05, .1
BETA = .7
STD0 = .8


class Lin(torch.nn.Module):
    def __init__(self, input_shape=None, output_shape=None, k=0, **kw):
        super().__init__()
        n = output_shape[0]
        self.w = torch.nn.Parameter(torch.tensor([[(((5 * i + 3 * j + 4 * k) % 7) - 3) / 4 for i in range(S + 1)] for j in range(n)]))

    def forward(self, state, **kwargs):
        return torch.cat([state.float(), torch.ones(len(state), 1)], 1) @ self.w.T


def w_of(n, k=0):
    return torch.tensor([[(((5 * i + 3 * j + 4 * k) % 7) - 3) / 4 for i in range(S + 1)] for j in range(n)], dtype=torch.float64)


class Shift:
    """A state preprocessor whose statistics move with what it has seen."""

    def __init__(self, a, m):
        self.a, self.m, self.c = a, m, 0.

    def __call__(self, x):
        return x * self.m + self.c

    def update(self, x):
        self.c = self.c + self.a * float(x.sum()) / len(x) + .125


class RefPolicy:
    """theta is the flat vector of the weights in the order of the policy's own vector: network first, then deviations."""

    def __init__(self, kind):
        self.kind = kind
        self.n = A if kind == 'gauss' else NA

    def theta0(self):
        w = w_of(self.n).reshape(-1)
        return torch.cat([w, torch.full((A,), float(np.log(STD0)), dtype=torch.float64)]) if self.kind == 'gauss' else w

    def out(self, th, s):
        w = th[:self.n * (S + 1)].reshape(self.n, S + 1)
        return torch.cat([s, torch.ones(len(s), 1, dtype=torch.float64)], 1) @ w.T

    def logp(self, th, s, a):
        o = self.out(th, s)
        if self.kind == 'gauss':
            ls = th[-A:]
            return (-.5 * ((a - o) / ls.exp()) ** 2 - ls - .5 * np.log(2 * np.pi)).sum(1)
        return torch.log_softmax(BETA * o, 1)[torch.arange(len(s)), a.reshape(-1).long()]

    def ent(self, th, s):
        if self.kind == 'gauss':
            return th[-A:].sum() + A / 2 * np.log(2 * np.pi * np.e)
        l = torch.log_softmax(BETA * self.out(th, s), 1)
        return -(l.exp() * l).sum(1).mean()

    def kl(self, t0, s0, th, s):
        """Mean divergence of the old distribution (in s0) from the new one (in s)."""
        if self.kind == 'gauss':
            m0, m1, l0, l1 = self.out(t0, s0), self.out(th, s), t0[-A:], th[-A:]
            return (l1 - l0 + ((2 * l0).exp() + (m0 - m1) ** 2) / (2 * (2 * l1).exp()) - .5).sum(1).mean()
        l0, l1 = torch.log_softmax(BETA * self.out(t0, s0), 1), torch.log_softmax(BETA * self.out(th, s), 1)
        return (l0.exp() * (l0 - l1)).sum(1).mean()


def t64(x):
    return torch.as_tensor(np.array(x.detach() if isinstance(x, torch.Tensor) else x), dtype=torch.float64)


REW = [[1., -2., .5, 3., -1.5], [0., 0., 2., 0., 0.], [-1., -1., -1., 4., -1.]]


def transitions(c, f):
    """The transitions of fit f: states, actions, rewards, flags."""
    n = len(c['fl'])
    out = []
    for i in range(n):
        k = i + 2 * f
        s = np.array([((3 * k) % 5 - 2) / 2, ((2 * k) % 7 - 3) / 3])
        s2 = np.array([((3 * (k + 1)) % 5 - 2) / 2, ((2 * (k + 1)) % 7 - 3) / 3])
        a = np.array([((k % 4) - 1) / 2, ((2 * k) % 3 - 1) / 2]) if c['pol'] == 'gauss' else np.array([(2 * k + k // 3) % NA])
        ab, la = {0: (False, False), 1: (False, True), 2: (True, True)}[c['fl'][i]]
        out.append((s, a, REW[c['r']][k % 5], s2, ab, la))
    return out


def build(c):
    gauss = c['pol'] == 'gauss'
    mdp = MDPInfo(Box(-10 * np.ones(S), 10 * np.ones(S)), Box(-5 * np.ones(A), 5 * np.ones(A)) if gauss else Discrete(NA), GAMMA, 100)
    if gauss:
        pol = GaussianTorchPolicy(Lin, (S,), (A,), std_0=STD0)
    else:
        pol = BoltzmannTorchPolicy(Lin, (S,), (NA,), beta=BETA)
    critic = dict(network=Lin, k=2, optimizer={'class': torch.optim.SGD, 'params': {'lr': CLR}}, loss=torch.nn.functional.mse_loss,
                  input_shape=(S,), output_shape=(1,))
    aopt = {'class': torch.optim.SGD, 'params': {'lr': ALR}}
    cfp = dict(n_epochs=c['ce'])
    ent = Parameter(c['ent']) if c['ent'] else c['ent']
    if c['alg'] == 'A2C':
        ag = A2C(mdp, pol, aopt, critic, ent, max_grad_norm=c['clip'], critic_fit_params=cfp)
    elif c['alg'] == 'PPO':
        ag = PPO(mdp, pol, aopt, critic, c['ep'], c['b'], c['eps'], c['lam'], ent_coeff=ent, critic_fit_params=cfp)
    else:
        ag = TRPO(mdp, pol, critic, ent_coeff=ent, max_kl=c['kl'], lam=c['lam'], n_epochs_line_search=c['ls'], n_epochs_cg=c['cg'],
                  cg_damping=c.get('damp', .01), cg_residual_tol=c.get('tol', 1e-10), critic_fit_params=cfp)
    pre = []
    for i in range(c['pre']):
        pre.append((Shift(.25, 1. + .25 * i), Shift(.25, 1. + .25 * i)))
        ag.add_agent_preprocessor(pre[-1][0])
    return ag, [p[1] for p in pre]


def apply(pre, x):
    for p in pre:
        x = p(x)
    return x


def update(pre, x):
    for i, p in enumerate(pre):
        p.update(x)
        x = p(x)


def vfun(w, s):
    return torch.cat([s, torch.ones(len(s), 1, dtype=torch.float64)], 1) @ w


def gae(w, s, ss, r, ab, la, lam):
    v, vn = vfun(w, s), vfun(w, ss)
    adv = torch.zeros(len(r), dtype=torch.float64)
    acc = 0.
    for k in range(len(r) - 1, -1, -1):
        end = la[k] or k == len(r) - 1
        delta = r[k] + (0. if ab[k] else GAMMA * vn[k]) - v[k]
        acc = delta if end else delta + GAMMA * lam * acc
        adv[k] = acc
    return adv + v, adv


def montecarlo(w, s, ss, r, ab):
    acc = vfun(w, ss[-1:])[0]
    q = torch.zeros(len(r), dtype=torch.float64)
    for k in range(len(r) - 1, -1, -1):
        acc = r[k] + (0. if ab[k] else GAMMA * acc)
        q[k] = acc
    return q, q - vfun(w, s)


def grad(f, x):
    x = x.clone().requires_grad_(True)
    return torch.autograd.grad(f(x), x)[0].detach()


def fit_critic(w, s, y, n):
    for _ in range(n):
        w = w - CLR * grad(lambda x: ((vfun(x, s) - y) ** 2).mean(), w)
    return w


def critic_of(agent, c):
    """The value function as it can be read from outside: evaluated on a basis of states."""
    for a in vars(agent).values():
        net = getattr(getattr(a, 'model', None), 'network', None)
        if isinstance(net, Lin):
            return t64(net.w).reshape(-1)
    expect(False, 'no critic in the agent')


def data(agent, c, f):
    tr = transitions(c, f)
    d = Dataset.generate(agent.mdp_info, agent.info, n_steps=len(tr))
    for s, a, r, s2, ab, la in tr:
        d.append((torch.tensor(s), torch.tensor(a), r, torch.tensor(s2), ab, la), {})
    return d, tr


def close(a, b, what, tol=3e-4):
    tol = tol * max(1., float(b.abs().max()))
    expect(a.shape == b.shape and bool((a - b).abs().max() <= tol), what, a.tolist(), 'expected', b.tolist())


def norm(adv):
    return (adv - adv.mean()) / (adv.std() + 1e-8)


def batches(n, b, ep):
    """All sequences of minibatches: every epoch is a partition of the samples into consecutive pieces of a permutation."""
    one = set()
    for p in itertools.permutations(range(n)):
        one.add(tuple(tuple(sorted(p[i:i + b])) for i in range(0, n, b)))
    return itertools.product(sorted(one), repeat=ep)


def ref_ppo(c, P, th, s, a, adv, old, seq):
    for ep in seq:
        for mb in ep:
            i = list(mb)

            def loss(x):
                ratio = (P.logp(x, s[i], a[i]) - old[i]).exp()
                cl = ratio.clamp(1 - c['eps'], 1 + c['eps'])
                return -torch.min(ratio * adv[i], cl * adv[i]).mean() - c['ent'] * P.ent(x, s[i])
            th = th - ALR * grad(loss, th)
    return th


def cg(F, g, n, tol, alias=False):
    p, r = g.clone(), g.clone()
    x = torch.zeros_like(g)
    r2 = r @ r
    for i in range(n):
        z = F(p)
        v = r2 / (p @ z)
        x = x + v * p
        r = r - v * z
        if alias and i == 0:
            p = r.clone()
        r2n = r @ r
        p = r + r2n / r2 * p
        r2 = r2n
        if r2 < tol:
            break
    return x


def ref_trpo(c, P, th, s, so, a, adv, old, alias=False):
    """All acceptable outcomes of the step (several when a decision is too close to call)."""
    def L(x):
        return ((P.logp(x, s, a) - old).exp() * adv).mean() + c['ent'] * P.ent(x, s)

    def F(p):
        x = th.clone().requires_grad_(True)
        g = torch.autograd.grad(P.kl(th, so, x, s), x, create_graph=True)[0]
        return torch.autograd.grad((g * p).sum(), x)[0].detach() + c.get('damp', .01) * p
    g = grad(L, th)
    x = cg(F, g, c['cg'], c.get('tol', 1e-10), alias)
    shs = .5 * x @ F(x)
    step = x / torch.sqrt(shs / c['kl'])
    l0 = L(th)
    out = []
    for j in range(c['ls']):
        t = th + step * .5 ** j
        kl, imp = P.kl(th, so, t, s), L(t) - l0
        mk, mi = kl - 1.5 * c['kl'], imp
        ok = mk <= 0 and mi >= 0
        sure = abs(mk) > 2e-3 * c['kl'] + 1e-6 and abs(mi) > 2e-6
        if ok or not sure:
            out.append(('step %d' % j, t))
        if ok and sure:
            return out
    return out + [('kept', th)]


def run(c, st):
    P = RefPolicy(c['pol'])
    spread = []

    def go(ch):
        agent, pre = build(c)
        th, w = P.theta0(), w_of(1, 2).reshape(-1)
        near0 = t64(agent.policy.get_weights())
        expect(near0.shape == th.shape and bool((near0 - th).abs().max() < 1e-6), 'initial policy parameters', near0.tolist())
        res = []
        for f in range(c['fits']):
            d, tr = data(agent, c, f)
            before = [np.array([np.asarray(x[k], dtype=float).reshape(-1) for x in tr]) for k in range(6)]
            with controlled_random(ch, patch_torch=True):
                agent.fit(d)
            raw = [np.array(x, dtype=float).reshape(len(tr), -1) for x in d.parse(to='numpy')[:6]]
            expect(all(np.allclose(x, y, atol=1e-6) for x, y in zip(raw, before)), 'the fit changed the dataset')
            s, a, r, ss = [t64(np.array([x[k] for x in tr])) for k in range(4)]
            ab, la = [x[4] for x in tr], [x[5] for x in tr]
            new, wn = t64(agent.policy.get_weights()), critic_of(agent, c)
            st.step()
            if c['alg'] == 'A2C':
                y, adv = montecarlo(w, s, ss, r, ab)
                w = fit_critic(w, s, y, c['ce'])
                g = grad(lambda x: -(P.logp(x, s, a) * adv).mean() - c['ent'] * P.ent(x, s), th)
                if c['clip']:
                    g = g * min(1., float(c['clip'] / (g.norm() + 1e-6)))
                th = th - ALR * g
                close(new, th, f'fit {f}: policy parameters')
                st.outcome('a2c')
            else:
                so = apply(pre, s)
                update(pre, s)
                s, ss = apply(pre, s), apply(pre, ss)
                y, adv = gae(w, s, ss, r, ab, la, c['lam'])
                if float(adv.std()) < 1e-2:
                    st.outcome('equal advantages: skipped')
                    return ()
                adv = norm(adv)
                old = P.logp(th, so, a)
                w = fit_critic(w, s, y, c['ce'])
                if c['alg'] == 'PPO':
                    if c['b'] >= len(r):
                        cands = [(((tuple(range(len(r))),),) * c['ep'])]
                    else:
                        cands = list(batches(len(r), c['b'], c['ep']))
                    outs = [ref_ppo(c, P, th, s, a, adv, old, q) for q in cands]
                    m = [i for i, x in enumerate(outs) if (x - new).abs().max() <= 3e-4 * max(1., float(x.abs().max()))]
                    expect(m, f'fit {f}: policy parameters', new.tolist(), 'are those of no sequence of minibatches, for example not',
                           outs[0].tolist())
                    spread.append(max(float((x - outs[0]).abs().max()) for x in outs))
                    th = outs[m[0]]
                    res.append(tuple(np.round(new.numpy(), 4)))
                    st.outcome('ppo')
                else:
                    outs = ref_trpo(c, P, th, s, so, a, adv, old)
                    if c.get('cgok'):
                        outs = outs + ref_trpo(c, P, th, s, so, a, adv, old, alias=True)
                    m = [o for o in outs if (o[1] - new).abs().max() <= 5e-3 * max((o[1] - th).abs().max(), 1e-5) + 2e-6]
                    expect(m, f'fit {f}: policy parameters moved by', (new - th).tolist(), 'expected',
                           [(o[0], (o[1] - th).tolist()) for o in outs])
                    st.outcome(m[0][0])
                    k = float(P.kl(th, so, new, s))
                    moved = float((new - th).abs().max()) > 1e-7
                    expect(not moved or k <= 1.5 * c['kl'] * 1.01 + 1e-6, f'fit {f}: divergence', k, 'beyond the trust region', c['kl'])
                    th = new
            close(wn, w, f'fit {f}: critic')
            w = wn
            if c['alg'] != 'TRPO':
                th = new
            st.state(tuple(np.round(new.numpy(), 3)), tuple(np.round(w.numpy(), 3)))
        return tuple(res)
    if c['alg'] == 'PPO' and c['b'] < len(c['fl']):
        seen = set()

        def f(ch):
            r = go(ch)
            seen.add(r)
            st.trace()
        for _ in explore(f):
            pass
        if spread and max(spread) > 1e-2:
            expect(len(seen) > 1, 'minibatches never depend on the permutation drawn')
    else:
        class No:
            def choose(self, n, weights=None):
                return 0
        go(No())
        st.trace()


def run_region(c, st):
    """Whatever the direction: inside the trust region and not worse, or nothing moves."""
    P = RefPolicy(c['pol'])
    agent, pre = build(c)
    for f in range(c['fits']):
        th, w = t64(agent.policy.get_weights()), critic_of(agent, c)
        d, tr = data(agent, c, f)
        s, a, r, ss = [t64(np.array([x[k] for x in tr])) for k in range(4)]
        so = apply(pre, s)
        update(pre, s)
        s, ss = apply(pre, s), apply(pre, ss)
        _, adv = gae(w, s, ss, r, [x[4] for x in tr], [x[5] for x in tr], c['lam'])
        if float(adv.std()) < 1e-2:
            return
        adv = norm(adv)
        old = P.logp(th, so, a)
        agent.fit(d)
        st.step()
        new = t64(agent.policy.get_weights())
        if bool((new - th).abs().max() < 1e-7):
            st.outcome('kept')
            continue
        st.outcome('moved')
        k = float(P.kl(th, so, new, s))
        expect(k <= 1.5 * c['kl'] * 1.01 + 1e-6, f'fit {f}: divergence', k, 'beyond the trust region', c['kl'])

        def L(x):
            return float(((P.logp(x, s, a) - old).exp() * adv).mean() + c['ent'] * P.ent(x, s))
        expect(L(new) - L(th) >= -1e-5, f'fit {f}: the surrogate went from', L(th), 'to', L(new))
        st.state(tuple(np.round(new.numpy(), 3)))
    st.trace()


# ---------------------------------------------------------------- recurrent learner
class RecLin(Lin):
    """Linear in a memory that halves at every step: what it sees are the states of the sequence and the policy state it starts from."""

    def forward(self, s, h, lengths):
        out = []
        for i in range(len(s)):
            x = h[i].reshape(-1).float()
            for j in range(int(lengths[i])):
                x = .5 * x + s[i, j].float()
            out.append(x)
        return Lin.forward(self, torch.stack(out))


class RecMu(RecLin):
    def forward(self, s, h, lengths):
        return RecLin.forward(self, s, h, lengths), h


def feats(s, h, ends, L):
    out = []
    for i in range(len(s)):
        b = i
        while b > 0 and i - b + 1 < L and not ends[b - 1]:
            b -= 1
        x = h[b]
        for j in range(b, i + 1):
            x = .5 * x + s[j]
        out.append(x)
    return torch.stack(out)


def run_rec(c, st):
    P = RefPolicy('gauss')

    def go(ch):
        mdp = MDPInfo(Box(-10 * np.ones(S), 10 * np.ones(S)), Box(-5 * np.ones(A), 5 * np.ones(A)), GAMMA, 100)
        pol = RecurrentGaussianTorchPolicy(policy_state_shape=(S,), network=RecMu, input_shape=(S,), output_shape=(A,), std_0=STD0)
        critic = dict(network=RecLin, k=2, optimizer={'class': torch.optim.SGD, 'params': {'lr': CLR}}, loss=torch.nn.functional.mse_loss,
                      input_shape=(S,), output_shape=(1,))
        agent = PPO_BPTT(mdp, pol, {'class': torch.optim.SGD, 'params': {'lr': ALR}}, critic, c['ep'], c['b'], c['eps'], c['lam'], dim_env_state=S,
                         ent_coeff=c['ent'], critic_fit_params=dict(n_epochs=c['ce']), truncation_length=c['L'])
        pre = []
        for i in range(c['pre']):
            agent.add_agent_preprocessor(Shift(.25, 1. + .25 * i))
            pre.append(Shift(.25, 1. + .25 * i))
        th, w = P.theta0(), w_of(1, 2).reshape(-1)
        near0 = t64(agent.policy.get_weights())
        expect(near0.shape == th.shape and bool((near0 - th).abs().max() < 1e-6), 'initial policy parameters', near0.tolist())
        for f in range(c['fits']):
            tr = transitions(c, f)
            n = len(tr)
            ps = np.array([[((7 * (k + f)) % 5 - 2) / 4, ((3 * (k + f)) % 4 - 1) / 4] for k in range(n)])
            nps = np.array([[((5 * (k + f)) % 7 - 3) / 4, ((2 * (k + f)) % 5 - 2) / 4] for k in range(n)])
            d = Dataset.generate(agent.mdp_info, agent.info, n_steps=n)
            for k, (s, a, r, s2, ab, la) in enumerate(tr):
                d.append((torch.tensor(s), torch.tensor(a), r, torch.tensor(s2), ab, la, torch.tensor(ps[k]), torch.tensor(nps[k])), {})
            before = [np.array(x, dtype=float) for x in d.parse(to='numpy')[:6]]
            with controlled_random(ch, patch_torch=True):
                agent.fit(d)
            expect(all(np.array_equal(x, np.array(y, dtype=float)) for x, y in zip(before, d.parse(to='numpy')[:6])), 'the fit changed the dataset')
            s, a, r, ss = [t64(np.array([x[k] for x in tr])) for k in range(4)]
            ab, la = [x[4] for x in tr], [x[5] for x in tr]
            so = apply(pre, s)
            update(pre, s)
            s, ss = apply(pre, s), apply(pre, ss)
            xo, x, xx = feats(so, t64(ps), la, c['L']), feats(s, t64(ps), la, c['L']), feats(ss, t64(nps), la, c['L'])
            y, adv = gae(w, x, xx, r, ab, la, c['lam'])
            if float(adv.std()) < 1e-2:
                st.outcome('equal advantages: skipped')
                return
            adv = norm(adv)
            old = P.logp(th, xo, a)
            w = fit_critic(w, x, y, c['ce'])
            cands = [(((tuple(range(n)),),) * c['ep'])] if c['b'] >= n else list(batches(n, c['b'], c['ep']))
            outs = [ref_ppo(c, P, th, x, a, adv, old, q) for q in cands]
            new, wn = t64(agent.policy.get_weights()), critic_of(agent, c)
            close(wn, w, f'fit {f}: critic')
            m = [i for i, o in enumerate(outs) if (o - new).abs().max() <= 3e-4 * max(1., float(o.abs().max()))]
            expect(m, f'fit {f}: policy parameters', new.tolist(), 'are those of no sequence of minibatches, for example not', outs[0].tolist())
            th, w = new, wn
            st.step()
            st.outcome('recurrent ppo')
            st.state(tuple(np.round(new.numpy(), 3)), tuple(np.round(w.numpy(), 3)))
    if c['b'] < len(c['fl']):
        for _ in explore(go):
            st.trace()
    else:
        class No:
            def choose(self, n, weights=None):
                return 0
        go(No())
        st.trace()


def rec_cases(tier):
    th = tier != 'quick'
    fls = FLAGS3 + ([f for f in itertools.product((0, 1, 2), repeat=4)] if th else [(0, 1, 0, 2), (0, 0, 1, 0), (0, 2, 0, 0), (1, 0, 0, 1), (0, 0, 0, 0)])
    for fl, r, ent, eps, L, pre in itertools.product(fls, range(3), (0., .3), (.1, .4), (1, 2, 3), (0, 1, 2)):
        if (r == 1 or ent and r) and not th:
            continue
        yield dict(pol='gauss', fl=list(fl), r=r, ent=ent, eps=eps, lam=.9 if r else .3, pre=pre, ep=3, b=8, ce=1 + (eps > .2), fits=2, L=L)
    for fl, b, ent in itertools.product(((0, 0, 2), (1, 0, 0), (0, 2, 0)), (1, 2), (0., .3)):
        yield dict(pol='gauss', fl=list(fl), r=0, ent=ent, eps=.2, lam=.9, pre=0, ep=1, b=b, ce=1, fits=1, L=2)


FLAGS3 = [f for f in itertools.product((0, 1, 2), repeat=3)]


def a2c_cases(tier):
    th = tier != 'quick'
    fls = [f for n in ((2, 3, 4, 5) if th else (2, 3, 4)) for f in itertools.product((0, 2), repeat=n)]
    for pol, fl, r, ent, clip, ce in itertools.product(('gauss', 'boltz'), fls, range(3), (0., .3), (None, .2), (1, 2)):
        yield dict(alg='A2C', pol=pol, fl=list(fl), r=r, ent=ent, clip=clip, ce=ce, pre=0, fits=3 if th else 2)


def ppo_cases(tier):
    th = tier != 'quick'
    fls = FLAGS3 + [f for f in itertools.product((0, 1, 2), repeat=4)] if th else FLAGS3 + [(0, 1, 0, 2), (0, 0, 1, 0), (0, 2, 0, 0), (1, 0, 0, 1)]
    for pol, fl, r, ent, eps, lam, pre in itertools.product(('gauss', 'boltz'), fls, range(3), (0., .3), (.1, .4), (0., .9), (0, 1, 2)):
        if r and pre == 1:
            continue
        yield dict(alg='PPO', pol=pol, fl=list(fl), r=r, ent=ent, eps=eps, lam=lam, pre=pre, ep=3, b=8, ce=1 + (eps > .2), fits=2)


def mb_cases(tier):
    th = tier != 'quick'
    for pol, fl, b, ep, ent in itertools.product(('gauss', 'boltz'), ((0, 0, 2), (1, 0, 0), (0, 2, 0)) if not th else FLAGS3, (1, 2), (1, 2), (0., .3)):
        yield dict(alg='PPO', pol=pol, fl=list(fl), r=0, ent=ent, eps=.2, lam=.9, pre=0, ep=ep, b=b, ce=1, fits=1)
    for pol, b in itertools.product(('gauss', 'boltz'), (2, 3) if not th else (1, 2, 3)):
        yield dict(alg='PPO', pol=pol, fl=[0, 1, 0, 2], r=0, ent=.3, eps=.2, lam=.9, pre=0, ep=1, b=b, ce=1, fits=1)


def trpo_cases(tier):
    th = tier != 'quick'
    fls = FLAGS3 + ([f for f in itertools.product((0, 1, 2), repeat=4)] if th else [(0, 1, 0, 2), (0, 2, 0, 0)])
    for pol, fl, r, ent, kl, lam, pre, ls in itertools.product(('gauss', 'boltz'), fls, range(3), (0., .3), (.01, .5), (0., .9), (0, 2), (1, 6)):
        if r and lam == 0.:
            continue
        yield dict(alg='TRPO', pol=pol, fl=list(fl), r=r, ent=ent, kl=kl, lam=lam, pre=pre, ls=ls, cg=1, ce=1 + (ls > 1), fits=2)


def region_cases(tier):
    th = tier != 'quick'
    for pol, fl, r, ent, kl, pre, ls in itertools.product(('gauss', 'boltz'), FLAGS3, range(3), (0., .3), (.001, .01, .5), (0,), (1, 2, 10)):
        yield dict(alg='TRPO', pol=pol, fl=list(fl), r=r, ent=ent, kl=kl, lam=.9, pre=pre, ls=ls, cg=10, ce=1, fits=3 if th else 2)


def cg_cases(tier):
    for pol, n in itertools.product(('gauss', 'boltz'), (2, 3)):
        yield dict(alg='TRPO', pol=pol, fl=[0, 1, 0, 2], r=0, ent=.3, kl=.01, lam=.9, pre=0, ls=6, cg=n, damp=.1, ce=1, fits=1)


def cgk_cases(tier):
    for pol, n, fl, r, damp in itertools.product(('gauss', 'boltz'), (2, 3, 4), ((0, 1, 0, 2), (0, 0, 0, 0), (1, 0, 2, 0)), range(3), (.1, .5)):
        yield dict(alg='TRPO', pol=pol, fl=list(fl), r=r, ent=.3, kl=.01, lam=.9, pre=0, ls=6, cg=n, damp=damp, ce=1, fits=1, cgok=1)


FAMILIES = [
    Family('a2c', a2c_cases, run, 'two policies, every pattern of absorbing flags of 2-4 (thorough 5) transitions, rewards, entropy, clipping, '
           'critic epochs; 2-3 fits', chunk=8),
    Family('ppo', ppo_cases, run, 'every flag pattern of 3 (thorough 4) transitions, rewards, entropy, clipping range, lambda, 0-2 preprocessors; '
           'three epochs, two fits', chunk=8),
    Family('ppo_minibatches', mb_cases, run, 'every permutation of every epoch for batches smaller than the data', chunk=1),
    Family('recurrent_ppo', rec_cases, run_rec, 'the recurrent learner: every flag pattern of 3 (thorough 4) transitions, truncation lengths 1-3, 0-2 '
           'preprocessors, two fits; every permutation for small batches', chunk=4),
    Family('trpo_step', trpo_cases, run, 'every flag pattern, rewards, entropy, region, line-search length, preprocessors; the exact step '
           '(one conjugate-gradient iteration), two fits', chunk=8),
    Family('trpo_region', region_cases, run_region, 'ten conjugate-gradient iterations: trust region and improvement, 2-3 fits', chunk=8),
    Family('trpo_direction_documented', cgk_cases, run, '2-4 conjugate-gradient iterations: the published direction or the one of the known '
           'finding, nothing else', chunk=4),
    Family('trpo_direction', cg_cases, run, 'the published conjugate-gradient direction', chunk=1),
]
