"""C29: deep off-policy actor-critic learners (DDPG, TD3, SAC): every quantity of every fit against the published rules."""
import contextlib
import itertools
import warnings

import numpy as np
import torch

from mushroom_rl.algorithms.actor_critic import DDPG, SAC, TD3
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.policy import OrnsteinUhlenbeckPolicy
from mushroom_rl.rl_utils.parameters import LinearParameter, Parameter
from mushroom_rl.rl_utils.replay_memory import ReplayMemory
from mushroom_rl.rl_utils.spaces import Box
from mc.explore import controlled_random, controlled_torch, explore
from mc.harness import Family, expect

warnings.filterwarnings('ignore')
ASSUMPTIONS = ['networks are small fixed functions trained by plain gradient descent: what the learner feeds to them and when does not '
               'depend on their form',
               'the batch is read where the learner reads it from the replay memory (C06 decides the memory itself)',
               'every normal draw of one fit has the same explored value, the number of draws is checked',
               'the networks in play are told apart by behaviour: the ones that take optimizer steps are the online ones',
               'within one fit of the soft actor-critic the actor and the temperature are updated before the critics, in DDPG and TD3 the '
               'critics before the actor; the target networks of TD3 follow at every fit']
GAMMA = .5
S, A = 2, 2
LOW, HIGH = np.array([-.5, -1.]), np.array([1.5, 1.])
REW = [.5, -2., 3., 1., -.25, 4., .75]
CLR, ALR = .05, .1


def phi(s, a):
    return torch.cat([s, a, s[:, :1] * a[:, :1], a ** 2, s[:, 1:] * a[:, 1:], torch.ones(len(s), 1, dtype=s.dtype)], 1)


NPHI = S + A + 1 + A + 1 + 1


class Reg:
    """All networks ever made by the agent under construction."""
    critics, actors, sigmas = [], [], []
    steps = []

    @classmethod
    def reset(cls):
        cls.critics, cls.actors, cls.sigmas, cls.steps = [], [], [], []


class Critic(torch.nn.Module):
    def __init__(self, input_shape=None, output_shape=None, **kw):
        super().__init__()
        k = len(Reg.critics)
        self.w = torch.nn.Parameter(torch.tensor([(((3 * i + 5 * k + i * k) % 7) - 3) / 8 + .01 * i for i in range(NPHI)]))
        Reg.critics.append(self)

    def forward(self, state, action):
        return phi(state.float(), action.float()) @ self.w


class Actor(torch.nn.Module):
    lst = 'actors'

    def __init__(self, input_shape=None, output_shape=None, **kw):
        super().__init__()
        l = getattr(Reg, self.lst)
        k = len(l)
        self.w = torch.nn.Parameter(torch.tensor([[(((5 * i + 3 * j + 4 * k) % 7) - 3) / 3 for i in range(S + 1)] for j in range(A)]))
        l.append(self)

    def forward(self, state):
        x = torch.cat([state.float(), torch.ones(len(state), 1)], 1)
        return x @ self.w.T


class Sigma(Actor):
    lst = 'sigmas'


class Rec(torch.optim.SGD):
    """Plain gradient descent that remembers whose parameters it moved."""

    def step(self, *a, **k):
        Reg.steps.append([p for g in self.param_groups for p in g['params']])
        return super().step(*a, **k)


def mu_of(w, s):
    return torch.cat([s, torch.ones(len(s), 1, dtype=s.dtype)], 1) @ w.T


def q_of(w, s, a):
    return phi(s, a) @ w


def t64(x):
    return torch.as_tensor(np.array(x.detach() if isinstance(x, torch.Tensor) else x), dtype=torch.float64)


class Pattern:
    """All sampled indices of a fit follow from one explored pattern."""

    def __init__(self, c):
        self.c, self.k = c, 0

    def choose(self, n, weights=None):
        self.k += 1
        return (self.k, n - self.k, n // 2)[self.c] % n


@contextlib.contextmanager
def spying(got):
    orig = ReplayMemory.__dict__['get']

    def w(self, *a, **k):
        r = orig(self, *a, **k)
        got.append([np.array(x) for x in r[:5]])
        return r
    ReplayMemory.get = w
    try:
        yield
    finally:
        ReplayMemory.get = orig


class Counter:
    def __init__(self):
        self.n = 0


@contextlib.contextmanager
def draws(pattern, z, count):
    """Index draws follow the pattern; every normal draw is z and counted."""
    with controlled_random(Pattern(pattern), normals=(z,), patch_torch=True) as r, controlled_torch(Pattern(pattern), normals=(z,)) as r2:
        for q in (r, r2):
            def n_(o=q._n):
                count.n += 1
                return o()
            q._n = n_
        yield


def build(c):
    Reg.reset()
    mdp = MDPInfo(Box(-10 * np.ones(S), 10 * np.ones(S)), Box(LOW, HIGH), GAMMA, 100)
    critic = dict(network=Critic, optimizer={'class': Rec, 'params': {'lr': CLR}}, loss=torch.nn.functional.mse_loss,
                  input_shape=(S + A,), output_shape=(1,))
    if c.get('nm'):
        critic['n_models'] = c['nm']
    actor = dict(network=Actor, input_shape=(S,), output_shape=(A,))
    aopt = {'class': Rec, 'params': {'lr': ALR}}
    if c.get('clip'):
        aopt['clipping'] = {'method': torch.nn.utils.clip_grad_norm_, 'params': dict(max_norm=c['clip'])}
    tau = LinearParameter(.6, threshold_value=.2, n=40) if c['tau'] == 'decay' else Parameter(c['tau']) if c['tau'] == .25 else c['tau']
    if c['alg'] == 'SAC':
        return SAC(mdp, actor, dict(network=Sigma, input_shape=(S,), output_shape=(A,)), aopt, critic, c['b'], c['init'], c['cap'], c['warm'], tau,
                   .05, use_log_alpha_loss=c['log'], log_std_min=-.5, log_std_max=.75, target_entropy=c['te'])
    kw = dict(policy_delay=c['delay'])
    if c['alg'] == 'TD3':
        kw.update(noise_std=.5, noise_clip=.3)
    return {'DDPG': DDPG, 'TD3': TD3}[c['alg']](mdp, OrnsteinUhlenbeckPolicy, dict(sigma=torch.ones(1) * .2, theta=.15, dt=1e-2), actor, aopt,
                                                critic, c['b'], c['init'], c['cap'], tau, **kw)


def state_of(i):
    return np.array([((3 * i) % 5 - 2) / 2, ((2 * i) % 7 - 3) / 3])


def dataset(agent, ids, ab):
    d = Dataset.generate(agent.mdp_info, agent.info, n_steps=len(ids))
    for k, i in enumerate(ids):
        a = ab[i % len(ab)]
        act = np.array([((i % 4) - 1) / 2, ((2 * i) % 3 - 1) / 2])
        d.append((state_of(i), act, REW[i % len(REW)], state_of(i + 1), bool(a), bool(a) or i % 3 == 1), {})
    return d


def cp(nets):
    return [t64(n.w) for n in nets]


def near(a, b, what, tol=2e-4):
    a, b = a.detach().double(), b.detach().double()
    expect(a.shape == b.shape and bool(torch.allclose(a, b, rtol=tol, atol=tol)), what, a.reshape(-1).tolist(), 'expected', b.reshape(-1).tolist())


def gstep(f, ws, lr, clip=None):
    ws = [w.clone().requires_grad_(True) for w in ws]
    g = torch.autograd.grad(f(*ws), ws)
    if clip:
        n = torch.sqrt(sum((x ** 2).sum() for x in g))
        g = [x * min(1., float(clip / (n + 1e-6))) for x in g]
    return [(w - lr * x).detach() for w, x in zip(ws, g)]


class Adam1:
    def __init__(self, lr):
        self.lr, self.m, self.v, self.t = lr, 0., 0., 0

    def __call__(self, x, g):
        self.t += 1
        self.m = .9 * self.m + .1 * g
        self.v = .999 * self.v + .001 * g * g
        return x - self.lr * (self.m / (1 - .9 ** self.t)) / (np.sqrt(self.v / (1 - .999 ** self.t)) + 1e-8)


def sac_draw(wm, ws, s, z):
    mu, ls = mu_of(wm, s), torch.clamp(mu_of(ws, s), -.5, .75)
    raw = mu + ls.exp() * z
    a = torch.tanh(raw)
    lp = (-.5 * z ** 2 - ls - .5 * np.log(2 * np.pi)).sum(1) - torch.log(1 - a ** 2 + 1e-6).sum(1)
    d, c = t64(.5 * (HIGH - LOW)), t64(.5 * (HIGH + LOW))
    return a * d + c, lp


def mix(tau, o, t, got, what, used):
    """the new target: one convex combination of the online and the old target weights"""
    if tau != 'decay':
        return tau * o + (1 - tau) * t
    d = o - t
    n2 = float((d * d).sum())
    if n2 < 1e-7:
        return .4 * o + .6 * t            # (nearly) equal: any mixture
    k = float(((got - t) * d).sum()) / n2
    expect(.2 - 1e-3 <= k <= .6 + 1e-3, what, 'moves by', k, 'of the way, outside of the schedule')
    used.append(k)
    return k * o + (1 - k) * t


def run(c, st):
    alg = c['alg']
    agent = build(c)
    nm = c.get('nm') or (1 if alg == 'DDPG' else 2)
    expect(len(Reg.critics) == 2 * nm, 'critic networks built', len(Reg.critics))
    init = cp(Reg.critics)
    # every target starts as a copy of one online network: the networks come in equal pairs
    pairs = {}
    for i, w in enumerate(init):
        pairs.setdefault(tuple(np.round(w.numpy(), 6)), []).append(i)
    expect(all(len(v) == 2 for v in pairs.values()), 'the target critics are not copies of the critics', [w.tolist() for w in init])
    if alg != 'SAC':
        expect(len(Reg.actors) == 2, 'actor networks', len(Reg.actors))
        near(t64(Reg.actors[0].w), t64(Reg.actors[1].w), 'the target actor is not a copy of the actor')
    act = [n for n in Reg.actors if any(n.w is p for p in policy_params(agent))]
    expect(len(act) == 1, 'the policy uses one of the actor networks')
    actor = act[0]
    tactor = [n for n in Reg.actors if n is not actor]
    online = target = None
    wc, wt = None, None
    wm = t64(actor.w)
    wmt = wm.clone()
    wsg = t64(Reg.sigmas[0].w) if alg == 'SAC' else None
    la, adam = 0., Adam1(.05)
    size, k, nfit = 0, 0, 0
    used = []
    for f, n in enumerate(c['sizes']):
        ids = list(range(k, k + n))
        k += n
        size = min(size + n, c['cap'])
        ready = size > c['init']
        Reg.steps = []
        got, count = [], Counter()
        before = cp(Reg.critics) + cp(Reg.actors) + cp(Reg.sigmas)
        with spying(got), draws(c['pat'], c['z'], count):
            agent.fit(dataset(agent, ids, c['ab']))
        after = cp(Reg.critics) + cp(Reg.actors) + cp(Reg.sigmas)
        st.step()
        if not ready:
            expect(not Reg.steps and all(torch.equal(a, b) for a, b in zip(before, after)),
                   'fit', f, 'with', size, 'transitions of', c['init'], 'required: something was updated')
            continue
        expect(len(got) == 1 and len(got[0][0]) == c['b'], 'one batch of', c['b'], 'is drawn at every fit')
        moved = {id(p) for l in Reg.steps for p in l}
        onl = [i for i, x in enumerate(Reg.critics) if id(x.w) in moved]
        expect(len(onl) == nm, 'critics updated by the optimizers:', len(onl), 'of', nm)
        expect(all(sum(any(p is Reg.critics[i].w for p in l) for l in Reg.steps) == 1 for i in onl), 'each critic takes one step per fit')
        if online is None:
            online = onl
            target = []
            for i in online:
                v = [j for pr in pairs.values() if i in pr for j in pr if j != i]
                expect(v[0] not in online, 'an online critic started as the target of another')
                target.append(v[0])
            wc, wt = [init[i] for i in online], [init[j] for j in target]
        expect(onl == online, 'the same critics are updated at every fit')
        s, a, r, ss, ab = [t64(x) for x in got[0]]
        z = torch.full((c['b'], A), float(c['z']), dtype=torch.float64)
        n_steps_actor = sum(any(p is actor.w for p in l) for l in Reg.steps)
        expect(not any(any(p is x.w for x in tactor for p in l) for l in Reg.steps), 'the target actor is trained')
        if alg == 'SAC':
            warm = size > c['warm']
            expect(n_steps_actor == int(warm), 'fit', f, 'with', size, 'transitions, warm-up', c['warm'], ': actor steps', n_steps_actor)
            al = float(np.exp(la))
            if warm:
                def loss(m, g):
                    an, lp = sac_draw(m, g, s, z)
                    return (al * lp - torch.min(q_of(wc[0], s, an), q_of(wc[1], s, an))).mean()
                lp = sac_draw(wm, wsg, s, z)[1]
                wm, wsg = gstep(loss, [wm, wsg], ALR, c.get('clip'))
                te = -float(A) if c['te'] is None else c['te']
                g = -float((lp + te).mean()) * (1. if c['log'] else al)
                la = adam(la, g)
                al = float(np.exp(la))
            an, lp = sac_draw(wm, wsg, ss, z)
            qn = torch.stack([q_of(w, ss, an) for w in wt]).min(0)[0] - al * lp
            y = r + GAMMA * qn * (1 - ab)
            expect(count.n >= A * c['b'] * (1 + warm), 'normal draws in one fit', count.n, 'for', A * c['b'] * (1 + warm), 'action components')
            wc2 = [gstep(lambda w: ((q_of(w, s, a) - y) ** 2).mean(), [w], CLR)[0] for w in wc]
        else:
            an = mu_of(wmt, ss)
            if alg == 'TD3':
                e = torch.clamp(.5 * z, -.3, .3)
                an = torch.minimum(torch.maximum(an + e, t64(LOW)), t64(HIGH))
                expect(count.n >= A * c['b'], 'smoothing noise: normal draws in one fit', count.n, 'for', A * c['b'], 'action components')
                qn = torch.stack([q_of(w, ss, an) for w in wt]).min(0)[0]
            else:
                qn = torch.stack([q_of(w, ss, an) for w in wt]).mean(0)
            y = r + GAMMA * qn * (1 - ab)
            wc2 = [gstep(lambda w: ((q_of(w, s, a) - y) ** 2).mean(), [w], CLR)[0] for w in wc]
            due = nfit % c['delay'] == 0
            expect(n_steps_actor == int(due), 'fit number', nfit, 'policy delay', c['delay'], ': actor steps', n_steps_actor)
            if due:
                qa = (lambda m: q_of(wc2[0], s, mu_of(m, s))) if alg == 'TD3' else \
                    (lambda m: torch.stack([q_of(w, s, mu_of(m, s)) for w in wc2]).mean(0))
                wm = gstep(lambda m: -qa(m).mean(), [wm], ALR, c.get('clip'))[0]
            wmt = mix(c['tau'], wm, wmt, t64(tactor[0].w), 'target actor', [])
        wc = wc2
        wt = [mix(c['tau'], o, t, t64(Reg.critics[i].w), 'target critic', used) for o, t, i in zip(wc, wt, target)]
        expect(all(u >= v - 1e-2 for u, v in zip(used, used[1:])), 'a decaying mixing coefficient grows', used)
        nfit += 1
        big = max(float(w.abs().max()) for w in wc + [wm])
        tol = 2e-4 * max(1., big)
        for i, w in zip(online, wc):
            near(t64(Reg.critics[i].w), w, f'fit {f}: critic', tol)
        for i, w in zip(target, wt):
            near(t64(Reg.critics[i].w), w, f'fit {f}: target critic', tol)
        near(t64(actor.w), wm, f'fit {f}: actor', tol)
        if alg == 'SAC':
            near(t64(Reg.sigmas[0].w), wsg, f'fit {f}: deviation of the actor', tol)
            wsg = t64(Reg.sigmas[0].w)
        else:
            near(t64(tactor[0].w), wmt, f'fit {f}: target actor', tol)
            wmt = t64(tactor[0].w)
        # resynchronise with the single precision of the implementation
        wc, wt, wm = [t64(Reg.critics[i].w) for i in online], [t64(Reg.critics[i].w) for i in target], t64(actor.w)
        st.state(repr(sorted(c.items())), f)
        if big > 30:
            st.outcome('diverging')
            break
    st.outcome(alg, nfit)
    st.trace()


def policy_params(agent):
    p = agent.policy
    if hasattr(p, 'parameters'):
        return list(p.parameters())
    reg = [v for v in vars(p).values() if hasattr(v, 'model')]
    return [q for r in reg for q in r.model.network.parameters()]


SIZES = [[2, 2, 2, 2, 2], [1, 1, 1, 1, 1, 1], [3, 1, 2, 1, 1]]
ABS = [[0], [0, 1], [1, 0, 0], [1]]


def cases(tier):
    full = tier == 'thorough'
    for alg in ('DDPG', 'TD3', 'SAC'):
        for tau in (.25, .5, 1., 'decay') if full else (.25, 1., 'decay'):
            for sizes in SIZES:
                for ab in ABS:
                    for pat in range(3):
                        for init, cap, b in [(0, 50, 2), (2, 50, 3), (2, 4, 2), (3, 4, 1)] + ([(1, 3, 4)] if full else []):
                            if not full and (tau == 'decay' and b != 3 or b == 1 and tau == 1.):
                                continue
                            base = dict(alg=alg, tau=tau, sizes=sizes, ab=ab, pat=pat, init=init, cap=cap, b=b)
                            if alg == 'SAC':
                                for warm in (0, 2, 4):
                                    for log in (False, True):
                                        for te, clip, z in [(None, 0, .5), (1., .5, -1.)] + ([(None, .1, 2.)] if full else []):
                                            yield dict(base, warm=warm, log=log, te=te, clip=clip, z=z)
                            else:
                                for delay in (1, 2, 3):
                                    for nm, clip in [(0, 0), (3, .5)] if alg == 'TD3' else [(0, 0), (0, .5)]:
                                        for z in (-1., .25, 2.) if alg == 'TD3' and (full or pat == 0) else (.25,):
                                            yield dict(base, delay=delay, nm=nm, clip=clip, z=z)


FAMILIES = [Family('fits', cases, run,
                   'DDPG, TD3 (2-3 critics), SAC: histories of 5-6 fits of 1-3 transitions, memory sizes and batch sizes, mixing coefficients, policy '
                   'delays 1-3 / warm-up sizes, absorbing patterns, 3 draw patterns, noise values, gradient clipping')]
