"""C13: the deep Q-learning family: targets, gradient steps, priorities and synchronisation of the target networks."""
import contextlib
import copy
import itertools

import numpy as np
import torch
import torch.nn.functional as F

from mushroom_rl.algorithms.value import (DQN, DoubleDQN, AveragedDQN, MaxminDQN, DuelingDQN, CategoricalDQN, QuantileDQN,
                                          NoisyDQN, Rainbow)
from mushroom_rl.algorithms.value.dqn.noisy_dqn import NoisyNetwork
from mushroom_rl.approximators.parametric import NumpyTorchApproximator
from mushroom_rl.core import Dataset, DatasetInfo, MDPInfo
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mc.explore import explore, controlled_random
from mc.harness import Family, expect

ASSUMPTIONS = ['networks are linear in a one-hot state and trained by plain gradient descent: what the learner feeds to them and '
               'when does not depend on their form',
               'the noise of noisy networks is replaced by a constant, so that a network is a fixed function of its weights',
               'what the replay memory returns is read where the learner reads it (C06, C07 decide the memory itself)',
               'the schedule counts calls of fit (the distributional learners count the fits actually made), as the code documents']

NS, NA, GAMMA, LR = 7, 3, .5, .125
REW = [.5, -2., 3., 1., -.25, 4., .75]


class QNet(torch.nn.Module):
    made = 0

    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        k = QNet.made
        QNet.made += 1
        w = [[(((3 * i + 5 * j + 7 * k + i * j * (k + 1)) % 13) - 6) / 4 + .01 * i for i in range(input_shape[0])] for j in range(output_shape[0])]
        self.w = torch.nn.Parameter(torch.tensor(w))

    def forward(self, state, action=None):
        q = state.float() @ self.w.T
        return q if action is None else q.gather(1, action.long())[:, 0]


class Feat(torch.nn.Module):
    def __init__(self, input_shape, output_shape, n_features=None, **kw):
        super().__init__()

    def forward(self, state, action=None):
        return state.float()


HEADS = {'Dueling': DuelingDQN, 'DuelingMax': DuelingDQN, 'Categorical': CategoricalDQN, 'Quantile': QuantileDQN, 'Noisy': NoisyDQN, 'Rainbow': Rainbow}
PLAIN = {'DQN': DQN, 'Double': DoubleDQN, 'Averaged': AveragedDQN, 'Maxmin': MaxminDQN}
NQ = 3


def build(case):
    alg = case['alg']
    QNet.made = 0
    torch.manual_seed(5)
    mdp = MDPInfo(Box(np.zeros(NS), np.ones(NS)), Discrete(NA), GAMMA, 100)
    pi = EpsGreedy(Parameter(0.))
    ap = dict(network=QNet if alg in PLAIN else Feat, optimizer={'class': torch.optim.SGD, 'params': {'lr': LR}}, loss=F.mse_loss,
              input_shape=(NS,), output_shape=(NA,), n_actions=NA)
    if alg in HEADS:
        ap['n_features'] = NS
    kw = dict(batch_size=case['b'], initial_replay_size=case['init'], max_replay_size=case['cap'], target_update_frequency=case['freq'],
              approximator_params=ap)
    if case['clip']:
        kw['clip_reward'] = True
    if case.get('per') and alg != 'Rainbow':
        kw['replay_memory'] = {'class': PrioritizedReplayMemory, 'params': {'alpha': .5, 'beta': Parameter(.5)}}
    if alg in PLAIN:
        kw['approximator'] = NumpyTorchApproximator
        if alg in ('Averaged', 'Maxmin'):
            kw['n_approximators'] = case.get('n', 2)
        return PLAIN[alg](mdp, pi, **kw)
    if alg == 'DuelingMax':
        kw['avg_advantage'] = False
    if alg in ('Categorical', 'Rainbow'):
        kw.update(n_atoms=case.get('atoms', 5), v_min=case.get('v', [-2., 2.])[0], v_max=case.get('v', [-2., 2.])[1])
    if alg == 'Quantile':
        kw.update(n_quantiles=NQ)
    if alg == 'Rainbow':
        kw.update(n_steps_return=case.get('ns', 1), alpha_coeff=.5, beta=Parameter(.5))
    return HEADS[alg](mdp, pi, **kw)


def onehot(i):
    x = np.zeros(NS)
    x[i] = 1.
    return x


def dataset(agent, ids, ab, cyc=NS):
    d = Dataset.generate(agent.mdp_info, agent.info, n_steps=len(ids))
    for k, i in enumerate(ids):
        a = ab[i % len(ab)]
        d.append((onehot(i % cyc), np.array([(i * 2 + i // 3) % NA]), REW[i % len(REW)], onehot((i + 1) % cyc), a, a or k == len(ids) - 1 and bool(i % 2)), {})
    return d


class Spy:
    def __init__(self):
        self.got, self.upd, self.added = [], [], []


@contextlib.contextmanager
def spying():
    spy = Spy()
    saved = []

    def wrap(cls, name, f):
        orig = cls.__dict__[name]
        saved.append((cls, name, orig))

        def w(self, *a, **k):
            r = orig(self, *a, **k)
            f(r, *a, **k)
            return r
        setattr(cls, name, w)
    cp = lambda r: tuple(np.array(x) for x in r)
    try:
        wrap(ReplayMemory, 'get', lambda r, *a, **k: spy.got.append(cp(r)))
        wrap(PrioritizedReplayMemory, 'get', lambda r, *a, **k: spy.got.append(cp(r)))
        wrap(PrioritizedReplayMemory, 'update', lambda r, error, idx: spy.upd.append((np.array(error), np.array(idx))))
        yield spy
    finally:
        for cls, name, f in saved:
            setattr(cls, name, f)


class Rotation:
    """All random answers of one fit follow from one explored choice: the first answer and the direction."""

    def __init__(self, ch, patterns):
        self.c = ch.choose(patterns)
        self.k = 0

    def choose(self, n, weights=None):
        self.k += 1
        return (self.k, n - self.k, n // 2)[self.c] % n


@contextlib.contextmanager
def still_noise():
    saved = torch.rand
    try:
        torch.rand = lambda *s, **k: torch.full(s if not (len(s) == 1 and not isinstance(s[0], int)) else tuple(s[0]), .25)
        yield
    finally:
        torch.rand = saved


def nets(reg):
    return [reg[i].network for i in range(len(reg))]


def clone(ns):
    return [copy.deepcopy(n) for n in ns]


def wvec(n):
    return np.concatenate([p.detach().numpy().reshape(-1) for p in n.parameters()])


def fwd(n, s, **k):
    with torch.no_grad():
        return n(torch.as_tensor(s), **k).numpy().astype(float)


def project(p, r, g, ab, v0, v1, n):
    """Distribution of r + g z, z ~ p on the atoms, projected onto the atoms (textbook, sample by sample)."""
    dz = (v1 - v0) / (n - 1)
    m = np.zeros((len(r), n))
    for i in range(len(r)):
        for j in range(n):
            x = min(max(r[i] + (0. if ab[i] else g * (v0 + j * dz)), v0), v1)
            for q in range(n):
                m[i, q] += p[i, j] * max(0., 1. - abs(x - (v0 + q * dz)) / dz)
    return m


def run(case, st):
    for path, p, out in explore(lambda ch: _run(ch, case, st)):
        st.state(repr(case), path)
        st.outcome(out)
        st.trace()


def _run(ch, case, st):
    alg = case['alg']
    with still_noise(), spying() as spy:
        agent = build(case)
        online, target = nets(agent.approximator), nets(agent.target_approximator)
        # synchronised at construction
        if alg == 'Averaged':
            expect(len(target) == case.get('n', 2) and len(online) == 1, 'numbers of networks')
            pairs = [(online[0], t) for t in target]
        else:
            expect(len(target) == len(online), 'numbers of networks')
            pairs = list(zip(online, target))
        expect(all(o is not t and all(a is not b and a.data_ptr() != b.data_ptr() for a, b in zip(o.parameters(), t.parameters())) for o, t in pairs),
               'target and online networks share their weights')
        expect(all(np.array_equal(wvec(o), wvec(t)) for o, t in pairs), 'the target differs from the online network at construction')
        ref_t = clone([o for o, _ in pairs]) if alg != 'Averaged' else clone(online)   # Averaged: the copies available
        count = stored = 0
        nid = 0
        sig = []
        for k, size in enumerate(case['adds']):
            ids = list(range(nid, nid + size))
            nid += size
            with controlled_random(Rotation(ch, case['pat']) if stored + size > case['init'] else ch, lattice=3):
                d = dataset(agent, ids, case['ab'], case.get("cyc", NS))
                before_d = [np.array(x) for x in d.parse()]
                snap = clone(online)
                tw = [wvec(t) for t in target]
                spy.got.clear()
                spy.upd.clear()
                agent.fit(d)
            stored = min(stored + size, case['cap'])
            expect(all(np.array_equal(x, y) for x, y in zip(before_d, d.parse())), 'fitting changed the dataset')
            if case.get('ns', 1) == 1:
                expect(len(spy.got) == (1 if stored > case['init'] else 0), 'batches drawn', len(spy.got), 'with', stored, 'samples in memory')
            if spy.got:
                b = spy.got[0]
                s, a, r, ns, ab = b[:5]
                expect(len(s) == case['b'], 'size of the batch')
                per = len(b) == 8
                if case['clip']:
                    r = np.clip(r, -1, 1)
                ab = ab.astype(bool)
                at = a.astype(int).reshape(-1, 1)
                i = np.arange(len(s))
                kw = {}
                nk = [0]
                if alg in ('DQN', 'Dueling', 'DuelingMax', 'Noisy'):
                    nxt = fwd(ref_t[0], ns).max(1)
                elif alg == 'Double':
                    nxt = fwd(ref_t[0], ns)[i, fwd(snap[0], ns).argmax(1)]
                elif alg == 'Averaged':
                    nxt = np.mean([fwd(t, ns) for t in ref_t[-case.get('n', 2):]], 0).max(1)
                elif alg == 'Maxmin':
                    nxt = np.min([fwd(t, ns) for t in ref_t], 0).max(1)
                if alg in ('Categorical', 'Rainbow'):
                    v0, v1 = case.get('v', [-2., 2.])
                    n_at = case.get('atoms', 5)
                    kw = {'get_distribution': True}
                    pn = fwd(ref_t[0], ns, **kw)
                    z = np.linspace(v0, v1, n_at)
                    sel = snap[0] if alg == 'Rainbow' else ref_t[0]
                    expect(np.allclose(fwd(sel, ns), fwd(sel, ns, **kw) @ z, atol=1e-5), 'values are the means of the distributions')
                    expect(np.allclose(pn.sum(-1), 1, atol=1e-5) and (pn >= 0).all(), 'distributions')
                    am = (fwd(sel, ns, **kw) @ z).argmax(1)
                    y = project(pn[i, am], r, GAMMA ** (case.get('ns', 1) if alg == 'Rainbow' else 1), ab, v0, v1, n_at)
                    loss = lambda yh, y_: -(y_ * yh.clamp(1e-5).log()).sum(1)
                elif alg == 'Quantile':
                    kw = {'get_quantiles': True}
                    qn = fwd(ref_t[0], ns, **kw)
                    expect(np.allclose(qn.mean(-1), fwd(ref_t[0], ns), atol=1e-5), 'values are the means of the quantiles')
                    y = r[:, None] + GAMMA * np.where(ab[:, None], 0., qn[i, qn.mean(-1).argmax(1)])

                    def loss(yh, y_):
                        out = []
                        for row in range(len(yh)):
                            l = 0.
                            for ti in range(NQ):
                                for j in range(NQ):
                                    u = y_[row, j] - yh[row, ti]
                                    h = torch.where(u.abs() < 1, .5 * u ** 2, u.abs() - .5)
                                    l = l + abs((ti + .5) / NQ - float(u < 0)) * h / NQ / NQ
                            out.append(l)
                        return torch.stack(out)
                else:
                    y = r + GAMMA * np.where(ab, 0., nxt)
                    loss = lambda yh, y_: (yh - y_) ** 2
                if alg == 'Maxmin':
                    # the member that is trained is drawn: exactly one changes
                    moved = [j for j in range(len(online)) if not np.allclose(wvec(online[j]), wvec(snap[j]), atol=1e-7)]
                    expect(len(moved) <= 1, 'members trained', moved)
                    if not moved:   # the trained member already met its target
                        qs = [fwd(n_, s)[i, at[:, 0]] for n_ in snap]
                        still = [j for j in range(len(snap)) if np.allclose(qs[j], y, atol=1e-5)]
                        expect(still, 'no member was trained')
                    nk = moved or still
                if per:
                    idx, isw = b[6], b[7]
                    expect(len(spy.upd) == 1 and np.array_equal(spy.upd[0][1], idx), 'priorities of the drawn samples are updated once')
                    if alg == 'Rainbow':
                        cur = fwd(snap[0], s, **kw)[i, at[:, 0]]
                        err = -(y * np.log(np.clip(cur, 1e-5, None))).sum(1)
                    else:
                        cur = np.min([fwd(n_, s) for n_ in snap], 0)[i, at[:, 0]]
                        err = y - cur
                    expect(np.allclose(np.abs(spy.upd[0][0]), np.abs(err), atol=1e-4), 'errors given to the memory', spy.upd[0][0], err)
                net = snap[nk[0]]
                opt = torch.optim.SGD(net.parameters(), lr=LR)
                l = loss(net(torch.as_tensor(s), torch.as_tensor(at), **kw), torch.tensor(np.asarray(y), dtype=torch.float))
                l = l.mean() if not per else (l * torch.tensor(isw, dtype=torch.float)).sum() / float(isw.sum())
                l.backward()
                opt.step()
                sig.append(tuple(np.round(s.argmax(1), 3)))
            for j in range(len(online)):
                expect(np.allclose(wvec(online[j]), wvec(snap[j]), atol=1e-4), 'online weights of network', j, 'after fit', k,
                       np.abs(wvec(online[j]) - wvec(snap[j])).max())
            if spy.got or alg not in ('Categorical', 'Quantile', 'Rainbow'):
                count += 1
                if count % case['freq'] == 0:
                    if alg == 'Averaged':
                        ref_t = (ref_t + clone(online))[-case.get('n', 2):]
                        sig.append('sync')
                    else:
                        ref_t = clone(online)
                        sig.append('sync')
                    tw = None
            if alg == 'Averaged':
                # the available copies are stored, each once, beside copies of the initial weights
                left = [wvec(t) for t in target]
                for c in ref_t:
                    hit = [q for q, v in enumerate(left) if np.allclose(v, wvec(c), atol=1e-6)]
                    expect(hit, 'a copy of the online network is missing after fit', k)
                    left.pop(hit[0])
            else:
                for t, c in zip(target, ref_t):
                    expect(np.allclose(wvec(t), wvec(c), atol=1e-6), 'target weights after fit', k, 'of', count)
                if tw is not None:
                    expect(all(np.array_equal(wvec(t), v) for t, v in zip(target, tw)), 'the target network moved between synchronisations')
            for q in range(2):
                act = int(agent.draw_action(onehot((k + q) % NS), None)[0][0])   # epsilon is zero: no random choice
                v = np.min([fwd(n_, onehot((k + q) % NS)[None]) for n_ in online], 0)[0]
                expect(v[act] >= v.max() - 1e-6, 'the policy acts greedily on the online network')
            st.step()
    return repr(sig)


def cases(tier):
    for c in _cases(tier):
        yield dict(c, pat=3 if tier == 'thorough' else 2)


def _cases(tier):
    th = tier == 'thorough'
    pats = [[False], [True], [False, True], [True, False, False]]
    for alg in list(PLAIN) + list(HEADS):
        for freq in (1, 2, 3):
            for init in (0, 1, 2):
                for clip in (False, True):
                    for ab in pats if th or freq == 2 else pats[2:3]:
                        for per in (False, True) if alg in PLAIN or alg in ('Dueling', 'Noisy') else (False,):
                            if (clip or per) and not th and (init != 1 or freq == 3):
                                continue
                            base = dict(alg=alg, freq=freq, init=init, clip=clip, ab=ab, per=per)
                            yield dict(base, b=1, cap=3, adds=[1] * (5 if not th else 6))
                            if init == 1:
                                yield dict(base, b=2, cap=2, adds=[1, 1, 1, 1])
                            if init == 2 and alg not in ('Maxmin',):
                                yield dict(base, b=3, cap=4, adds=[2, 1, 2])
    for alg in ('Averaged', 'Maxmin'):
        for freq in (1, 2):
            for per in (False, True):
                yield dict(alg=alg, freq=freq, init=0, clip=False, ab=[False, True, False], per=per, n=3, b=1, cap=2, adds=[1] * (6 if alg == 'Averaged' else 4))
                for n in (2, 3, 4):
                    for cyc in (1, 2):
                        yield dict(alg=alg, freq=freq, init=0, clip=False, ab=[False], per=per, n=n, b=1, cap=1, cyc=cyc, adds=[1] * (8 if alg == 'Averaged' else 4))
    # few states: what one fit changes is read by the targets of the next
    for alg in list(PLAIN) + list(HEADS):
        for freq in (1, 2):
            for cyc in (1, 2, 3):
                yield dict(alg=alg, freq=freq, init=0, clip=False, ab=[False, False, True], per=False, b=2 if cyc > 1 and alg != 'Maxmin' else 1, cap=2, cyc=cyc, adds=[1] * (6 if alg != 'Maxmin' else 4))
    for alg in ('Categorical', 'Rainbow'):
        for v in ([-2., 2.], [-1., 3.], [0., 1.], [-10., 10.], [-.3, .4]):
            for atoms in (2, 3, 5, 11):
                for ab in ([False], [False, True]):
                    yield dict(alg=alg, freq=2, init=0, clip=False, ab=ab, per=False, b=2, cap=2, adds=[1, 1, 1], v=v, atoms=atoms)
        # supports whose width divided by the distance of two atoms is not exactly their number less one
        for v, atoms in (([0., 1.], 50), ([-1., 1.], 50), ([-1., 2.], 48), ([-2., 3.], 62), ([-10., 10.], 51)):
            for ab in ([False], [False, True]):
                yield dict(alg=alg, freq=2, init=0, clip=False, ab=ab, per=False, b=2, cap=2, adds=[1, 1, 1], v=v, atoms=atoms)
    for ns in (1, 2, 3):
        for ab in pats:
            for freq in (1, 2):
                yield dict(alg='Rainbow', freq=freq, init=0, clip=False, ab=ab, per=False, b=2, cap=4, adds=[4, 3, 3], ns=ns)


# ---------------------------------------------------------------- heads
def run_head(case, st):
    """Perturb each weight: a dueling head splits values into a state value and advantages of mean (maximum) zero."""
    with still_noise():
        if case['kind'] == 'dueling':
            agent = build(dict(alg=case['alg'], freq=1, init=0, clip=False, b=1, cap=2))
            net = agent.approximator[0].network
            with torch.no_grad():
                for k, p in enumerate(net.parameters()):
                    p.copy_(torch.tensor([((5 * j + 3 * k) % 11 - 5) / 4 for j in range(p.numel())]).reshape(p.shape))
            for s in range(NS):
                x = onehot(s)[None]
                q0 = fwd(net, x)[0]
                n_v = n_a = 0
                for p in net.parameters():
                    for j in range(p.numel()):
                        for d in (.125, -.125):
                            with torch.no_grad():
                                p.view(-1)[j] += d
                                dq = fwd(net, x)[0] - q0
                                p.view(-1)[j] -= d
                            if np.allclose(dq, 0, atol=1e-6):
                                continue
                            if np.allclose(dq, dq[0], atol=1e-6):
                                expect(np.allclose(dq, d, atol=1e-5), 'a value weight', dq)
                                n_v += 1
                            elif case['alg'] == 'Dueling':
                                expect(abs(dq.sum()) < 1e-5, 'the advantages have mean zero', dq)
                                n_a += 1
                            else:
                                expect(abs(max(q0 + dq) - max(q0)) < 1e-5, 'the advantages have maximum zero', dq)
                                n_a += 1
                            st.step()
                expect(n_v and n_a, 'value and advantage weights', n_v, n_a)
                for a in range(NA):
                    expect(np.allclose(fwd(net, x, action=torch.tensor([[a]])), q0[a], atol=1e-6), 'value of one action')
                st.state(case['alg'], s)
            for rows in itertools.product(range(4), repeat=3):
                q = fwd(net, np.array([onehot(s) for s in rows]))
                expect(all(np.allclose(q[j], fwd(net, onehot(s)[None])[0], atol=1e-5) for j, s in enumerate(rows)), 'values of a state depend on the batch it is in', rows)
                st.step()
        else:
            eo, ei = case['eo'], case['ei']
            saved = torch.rand
            try:
                torch.rand = lambda *s, **k: torch.tensor(eo if s[0] != 1 or len(eo) == 1 and s[1] == 1 else ei, dtype=torch.float).reshape(s)
                lin = NoisyNetwork.NoisyLinear(len(ei), len(eo), sigma_coeff=.5)
                expect(np.allclose(lin.sigma_weight.detach(), .5 / len(ei) ** .5) and np.allclose(lin.sigma_bias.detach(), .5 / len(ei) ** .5), 'initial noise')
                b = 1 / len(ei) ** .5 + 1e-6
                expect((lin.mu_weight.abs() <= b).all() and (lin.mu_bias.abs() <= b).all(), 'initial weights')
                with torch.no_grad():
                    for k, p in enumerate((lin.mu_weight, lin.sigma_weight, lin.mu_bias, lin.sigma_bias)):
                        p.copy_(torch.tensor([((5 * j + 3 * k) % 11 - 5) / 4 for j in range(p.numel())]).reshape(p.shape))
                f = lambda v: np.sign(v) * np.sqrt(np.abs(v))
                W = lin.mu_weight.detach().numpy() + lin.sigma_weight.detach().numpy() * np.outer(f(np.array(eo)), f(np.array(ei)))
                B = lin.mu_bias.detach().numpy() + lin.sigma_bias.detach().numpy() * f(np.array(eo))
                for x in itertools.product((-1., 0., 2.), repeat=len(ei)):
                    y = lin(torch.tensor([x, x[::-1]])).detach().numpy()
                    expect(np.allclose(y, np.array([x, x[::-1]]) @ W.T + B, atol=1e-4), 'noisy layer', y)
                    st.step()
            finally:
                torch.rand = saved
            st.state(repr(case))
    st.trace()
    st.outcome(case['kind'])


def head_cases(tier):
    for alg in ('Dueling', 'DuelingMax'):
        yield {'kind': 'dueling', 'alg': alg}
    for eo in itertools.product((.25, .81), repeat=2):
        for ei in itertools.product((0., .36, .64), repeat=3):
            yield {'kind': 'noisy', 'eo': list(eo), 'ei': list(ei)}


FAMILIES = [
    Family('learners', cases, run, lambda t: '10 learners, target periods 1-3, warm-up 0-2, batches of 1-3, 3-6 fits, plain and prioritized memory, %d draw patterns of the memory per fit' % (3 if t == 'thorough' else 2), chunk=4),
    Family('heads', head_cases, run_head, 'every weight of the dueling heads; noisy layers over a noise lattice'),
]
