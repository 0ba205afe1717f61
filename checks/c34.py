"""C34: parametric policies - draws, densities, gradients, entropies and weights describe one and the same distribution."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import torch
import torch.nn as nn

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, TorchApproximator
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy
from mushroom_rl.core import Serializable
from mushroom_rl.features import Features
from mushroom_rl.policy import (BoltzmannTorchPolicy, DeterministicPolicy, DiagonalGaussianPolicy, DMP, GaussianPolicy, GaussianTorchPolicy,
                                ProMP, RecurrentGaussianTorchPolicy, StateLogStdGaussianPolicy, StateStdGaussianPolicy)
from mushroom_rl.policy.vector_policy import VectorPolicy
from mushroom_rl.rl_utils.parameters import Parameter
from mc.explore import explore, controlled_random, controlled_torch
from mc.harness import Family, expect

ASSUMPTIONS = ['normal draws are enumerated from three points with mean 0 and variance 1, so that mean and covariance of the drawn actions are exact; '
               'higher moments are those of the random number generator, which is trusted',
               'gradients are compared with central differences of the declared density',
               'the log-probability of the squashed (SAC) policy refers to the action before it is scaled to the action range']

A3 = float(np.sqrt(1.5))
N3 = (-A3, 0., A3)


def lin(nin, nout, w=None):
    r = Regressor(LinearApproximator, input_shape=(nin,), output_shape=(nout,))
    if w is not None:
        r.set_weights(np.array(w, dtype=float))
    return r


def lattice(n, k, lo=-1.):
    """k-th of a fixed list of weight vectors of size n (never equal entries)."""
    return lo + .25 * ((np.arange(n) * (2 * k + 3) + k) % 7)


SIG = {1: [np.array([[.5]]), np.array([[1.7]])], 2: [np.array([[1., .3], [.3, .6]]), np.array([[.4, -.2], [-.2, 2.]])]}
STD = {1: [np.array([.8]), np.array([1.6])], 2: [np.array([.8, 1.3]), np.array([1.5, .6])]}


def logpdf(a, mu, S):
    d = np.atleast_1d(a) - mu
    return float(-.5 * (d @ np.linalg.solve(S, d) + np.log(np.linalg.det(S)) + len(d) * np.log(2 * np.pi)))


def moments(draw, patch, n):
    """Exact mean and covariance of the drawn action over all outcomes of the random numbers."""
    m, c, tot = 0., 0., 0.
    for path, p, a in explore(lambda ch: patch(ch, draw)):
        a = np.asarray(a, dtype=float)
        m, c, tot = m + p * a, c + p * np.outer(a, a), tot + p
    return m / tot, c / tot - np.outer(m / tot, m / tot)


def np_draw(ch, f):
    with controlled_random(ch, normals=N3):
        return f()


def t_draw(ch, f):
    with controlled_torch(ch, normals=N3):
        return f()


# ---------------------------------------------------------------- Gaussian policies on numpy
def run_gauss(case, st):
    kind, nin, na = case['kind'], case['nin'], case['na']
    mu = lin(nin, na)
    par = None
    if kind == 'full':
        pol = GaussianPolicy(mu, SIG[na][0].copy())
    elif kind == 'diag':
        pol = DiagonalGaussianPolicy(mu, STD[na][0].copy())
    elif kind == 'std':
        par = lin(nin, na)
        pol = StateStdGaussianPolicy(mu, par, eps=.0625)
    else:
        par = lin(nin, na)
        pol = StateLogStdGaussianPolicy(mu, par)
    n = na * nin + (na if kind == 'diag' else 0 if kind == 'full' else na * nin)
    expect(pol.weights_size == n and pol.get_weights().shape == (n,), 'size of the weights', pol.weights_size, n)
    cur = pol.get_weights().copy()
    sig = SIG[na][0]
    std = STD[na][0]
    held = []
    for op in case['w']:
        st.step()
        if op[0] == 'w':
            x = lattice(n, int(op[1]))
            if kind == 'diag':
                x[-na:] = np.where(x[-na:] < 0, -1., 1.) * (np.abs(x[-na:]) + .5)      # only its square matters
            g = x.copy()
            pol.set_weights(g)
            g += 9.                 # the array of the caller stays his
            cur = x
            if kind == 'diag':
                std = x[-na:]
        elif op[0] == 's' and kind == 'full':
            sig = SIG[na][int(op[1])]
            pol.set_sigma(sig.copy())
        elif op[0] == 's' and kind == 'diag':
            std = STD[na][int(op[1])]
            pol.set_std(std.copy())
            cur = np.concatenate([cur[:-na], std])
        elif op[0] == 'g':
            got = pol.get_weights()
            held.append((got, got.copy()))
        expect(np.allclose(pol.get_weights(), cur), 'weights', pol.get_weights().tolist(), 'expected', cur.tolist())
        for s in case['s']:
            s = np.array(s[:nin])
            m = np.asarray(mu.predict(s)).reshape(-1)
            if kind == 'full':
                S = sig
            elif kind == 'diag':
                S = np.diag(std ** 2)
            else:
                q = np.asarray(par.predict(s)).reshape(-1)
                S = np.diag(q ** 2 + .0625) if kind == 'std' else np.diag(np.exp(2 * q))
            sd = np.sqrt(np.diag(S))
            for z in itertools.product((-1.2, .4), repeat=na):
                a = m + np.array(z) * sd
                want = logpdf(a, m, S)
                p = float(pol(s, a))
                expect(np.isclose(p, np.exp(want), rtol=1e-8), 'density', p, 'expected', np.exp(want))
                g = np.asarray(pol.diff_log(s, a))
                expect(g.shape == (n,), 'shape of the gradient', g.shape)
                num = np.zeros(n)
                for i in range(n):
                    e = np.zeros(n)
                    e[i] = 1e-4
                    lp = []
                    for sgn in (1, -1):
                        pol.set_weights(cur + sgn * e)
                        lp.append(np.log(float(pol(s, a))))
                    num[i] = (lp[0] - lp[1]) / 2e-4
                pol.set_weights(cur)
                expect(np.allclose(g, num, rtol=1e-4, atol=1e-4), 'gradient of the log density', g.tolist(), 'differences', num.tolist())
                expect(np.allclose(pol.diff(s, a), p * g), 'gradient of the density')
            mm, cc = moments(lambda: one(pol, s, na), np_draw, na)
            expect(np.allclose(mm, m, atol=1e-6) and np.allclose(cc, S, atol=1e-6), 'draws have mean', mm, 'covariance', cc.tolist(), 'expected', m, S.tolist())
            st.state(kind, na, cur.tobytes(), S.tobytes(), s.tobytes())
        for a, b in held:
            expect(np.array_equal(a, b), 'weights handed out earlier have changed')
    st.trace()
    st.outcome(kind, na, tuple(case['w']))


def one(pol, s, na):
    a, ps = pol.draw_action(s)
    expect(ps is None and np.shape(a) == (na,), 'drawn', a, ps)
    return a


def gauss_cases(tier):
    th = tier != 'quick'
    S = [[.5, -1.], [-2., .75]]
    for kind in ('full', 'diag', 'std', 'logstd'):
        ops = ['w0', 'w1', 'g'] + (['s0', 's1'] if kind in ('full', 'diag') else [])
        for nin, na in itertools.product((1, 2), (1, 2)):
            for L in range(1, 4 if th else 3):
                for w in itertools.product(ops, repeat=L):
                    if w[0] == 'w0' or kind == 'full' or kind == 'diag' or 'w1' in w:
                        yield dict(kind=kind, nin=nin, na=na, w=list(w), s=S)


# ---------------------------------------------------------------- deterministic policy
def run_det(case, st):
    nin, na = case['nin'], case['na']
    mu = lin(nin, na)
    pol = DeterministicPolicy(mu)
    expect(pol.weights_size == nin * na and pol.get_regressor() is mu, 'regressor')
    for k in case['w']:
        st.step()
        x = lattice(nin * na, k)
        g = x.copy()
        pol.set_weights(g)
        g += 9
        expect(np.array_equal(pol.get_weights(), x), 'weights')
        W = x.reshape(na, nin)
        for s in ([.5, -1.], [-2., .75]):
            s = np.array(s[:nin])
            a, ps = pol.draw_action(s)
            expect(ps is None and np.shape(a) == (na,) and np.allclose(a, W @ s), 'action', a, 'expected', W @ s)
            b = a.copy()
            expect(pol(s, a) == 1., 'density of the action')
            for i in range(na):
                c = b.copy()
                c[i] += .25
                expect(pol(s, c) == 0., 'density of another action')
            a += 3.
            expect(np.allclose(pol.draw_action(s)[0], b), 'changing the action changed the policy')
        st.state(x.tobytes())
    st.trace()


def det_cases(tier):
    for nin, na in itertools.product((1, 2), repeat=2):
        for w in itertools.product(range(3), repeat=3 if tier == 'quick' else 4):
            yield dict(nin=nin, na=na, w=list(w))


# ---------------------------------------------------------------- torch policies
class Net(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.h = nn.Linear(input_shape[0], output_shape[0])

    def forward(self, x, **kw):
        return torch.tanh(self.h(x.float())) * 1.5


def net_out(w, s, nout):
    nin = s.shape[-1]
    W, b = w[:nin * nout].reshape(nout, nin), w[nin * nout:nin * nout + nout]
    return np.tanh(s @ W.T + b) * 1.5


def softlog(x):
    m = x.max(-1, keepdims=True)
    return x - m - np.log(np.exp(x - m).sum(-1, keepdims=True))


def run_torch(case, st):
    kind, nin, na = case['kind'], case['nin'], case['na']
    cls = GaussianTorchPolicy if kind == 'gauss' else BoltzmannTorchPolicy
    kw = dict(std_0=.75) if kind == 'gauss' else dict(beta=case['beta'] if not case['par'] else Parameter(case['beta']))
    pol = cls(Net, (nin,), (na,), **kw)
    nw = nin * na + na
    n = nw + (na if kind == 'gauss' else 0)
    cur = np.asarray(pol.get_weights().detach(), dtype=float).reshape(-1)
    expect(cur.shape == (n,), 'number of weights', cur.shape, n)
    if kind == 'gauss':
        expect(np.allclose(cur[-na:], np.log(.75)), 'initial deviation')
    expect(sum(p.numel() for p in pol.parameters()) == n, 'number of parameters')
    beta = case['beta']
    full = np.array([[.5, -1.], [-2., .75], [.25, 1.]])[:, :nin]
    for op in case['w']:
        st.step()
        if op[0] == 'w':
            x = lattice(n, int(op[1])) * .5
            g = torch.tensor(x, dtype=torch.float32)
            pol.set_weights(g)
            g += 9.
            cur = x
        elif op[0] == 'b' and kind != 'gauss':
            beta = [.5, 2.][int(op[1])]
            pol.set_beta(beta)
        elif op[0] == 'o':
            # an optimizer step through parameters() is a change of the policy
            for p in pol.parameters():
                p.data += .125
            cur = cur + .125
        got = np.asarray(pol.get_weights().detach(), dtype=float)
        expect(np.allclose(got, cur, atol=1e-5), 'weights', got.tolist(), 'expected', cur.tolist())
        for rows in ((0,), (1,), (0, 1, 2)):
            s = full[list(rows)]
            ts = torch.tensor(s, dtype=torch.float32)
            out = net_out(cur, s, na)
            if kind == 'gauss':
                sd = np.exp(cur[-na:])
                acts = out + sd * np.array([-1.2, .4])[:na]
                lp = -.5 * np.sum(((acts - out) / sd) ** 2 + 2 * np.log(sd) + np.log(2 * np.pi), -1)
                ent = np.sum(.5 * np.log(2 * np.pi * np.e) + np.log(sd))
                tacts = torch.tensor(acts, dtype=torch.float32)
                d = pol.distribution(ts)
                expect(np.allclose(d.mean.detach(), out, atol=1e-5) and np.allclose(d.stddev.detach(), np.broadcast_to(sd, out.shape), atol=1e-5), 'distribution')
                ents = [pol.entropy(ts), pol.entropy()]
            else:
                L = softlog(beta * out)
                d = pol.distribution(ts)
                expect(np.allclose(d.logits.detach(), L, atol=1e-5), 'distribution')
                ent = np.mean(-np.sum(np.exp(L) * L, -1))
                ents = [pol.entropy(ts)]
                for k in range(na):
                    acts = (np.arange(len(rows)) + k) % na
                    lpk = pol.log_prob_t(ts, torch.tensor(acts[:, None]))
                    expect(tuple(lpk.shape) == (len(rows), 1) and np.allclose(lpk.detach()[:, 0], L[np.arange(len(rows)), acts], atol=1e-5),
                           'log probability', lpk, 'expected', L[np.arange(len(rows)), acts])
                acts = np.zeros(len(rows), dtype=int)
                lp = L[:, 0]
                tacts = torch.tensor(acts[:, None])
            for e in ents:
                expect(np.isclose(float(e), ent, atol=1e-5), 'entropy', float(e), 'expected', ent)
            l = pol.log_prob_t(ts, tacts)
            expect(tuple(l.shape) == (len(rows), 1) and np.allclose(l.detach()[:, 0], lp, atol=1e-4), 'log probability', l, 'expected', lp)
            if len(rows) == 1:
                p1 = pol(ts[0], tacts[0])
                expect(np.allclose(p1.detach().reshape(-1), np.exp(lp), rtol=1e-4), 'probability of one pair', p1)
            p = pol(ts, tacts)
            expect(np.allclose(p.detach().reshape(-1), np.exp(lp), rtol=1e-4), 'probabilities', p)
            # draws: in one state, and in a batch of states
            if kind == 'gauss':
                if len(rows) == 1:
                    def f():
                        a, ps = pol.draw_action(ts[0])
                        expect(ps is None and tuple(a.shape) == (na,) and not a.requires_grad, 'drawn', a)
                        return a.numpy()
                    m, c = moments(f, t_draw, na)
                    expect(np.allclose(m, out[0], atol=1e-4) and np.allclose(c, np.diag(sd ** 2), atol=1e-3), 'draws: mean', m, 'covariance', c.tolist())
                elif na == 1:
                    def f():
                        a, ps = pol.draw_action(ts)
                        expect(tuple(a.shape) == (len(rows), na), 'shape of a batch of actions', a.shape)
                        return a.numpy().reshape(-1)
                    m, c = moments(f, t_draw, na)
                    expect(np.allclose(m, out.reshape(-1), atol=1e-4) and np.allclose(c, np.eye(len(rows)) * sd[0] ** 2, atol=1e-3), 'batch draws', m, c.tolist())
            else:
                dist = {}

                def f(ch):
                    with controlled_torch(ch):
                        a, ps = pol.draw_action(ts[0] if len(rows) == 1 else ts)
                    expect(ps is None and a.numel() == len(rows) and (len(rows) > 1 or tuple(a.shape) == (1,)), 'shape of the drawn actions', tuple(a.shape),
                           'for', len(rows), 'states')
                    return tuple(int(x) for x in a.reshape(-1))
                for path, pr, res in explore(f):
                    dist[res] = dist.get(res, 0.) + pr
                    st.step()
                for res in itertools.product(range(na), repeat=len(rows)):
                    w = float(np.exp(sum(L[i, a] for i, a in enumerate(res))))
                    expect(abs(dist.get(res, 0.) - w) < 1e-5, 'actions', res, 'are drawn with probability', dist.get(res, 0.), 'declared', w)
        st.state(kind, cur.tobytes(), beta)
    st.trace()
    st.outcome(kind, tuple(case['w']))


def torch_cases(tier):
    L = 2 if tier == 'quick' else 3
    for nin, na in itertools.product((1, 2), (1, 2)):
        for w in itertools.product(['w0', 'w1', 'w2', 'o'], repeat=L):
            yield dict(kind='gauss', nin=nin, na=na, w=list(w), beta=0., par=False)
    for nin, na, par, beta in itertools.product((1, 2), (2, 3), (False, True), (1., 3.)):
        for w in itertools.product(['w0', 'w1', 'o', 'b0', 'b1'], repeat=L):
            yield dict(kind='boltzmann', nin=nin, na=na, w=list(w), beta=beta, par=par)


# ---------------------------------------------------------------- the squashed policy of SAC
def run_sac(case, st):
    nin, na = case['nin'], case['na']
    lo, hi = np.array([-2., 1.])[:na], np.array([1., 1.5])[:na]

    def reg():
        return Regressor(TorchApproximator, input_shape=(nin,), output_shape=(na,), network=Net)
    rm, rs = reg(), reg()
    lmin, lmax = case['lim']
    pol = SACPolicy(rm, rs, lo, hi, lmin, lmax)
    half = nin * na + na
    expect(len(pol.get_weights()) == 2 * half and sum(p.numel() for p in pol.parameters()) == 2 * half, 'number of weights')
    full = np.array([[.5, -1.], [-2., .75]])[:, :nin]
    for k in case['w']:
        st.step()
        x = (lattice(2 * half, k) * .5).astype(np.float32)
        g = x.copy()
        pol.set_weights(g)
        g += 9
        expect(np.allclose(pol.get_weights(), x, atol=1e-6), 'weights')
        for rows in ((0,), (0, 1)):
            s = full[list(rows)]
            ts = torch.tensor(s, dtype=torch.float32)
            m = net_out(x[:half].astype(float), s, na)
            sd = np.exp(np.clip(net_out(x[half:].astype(float), s, na), lmin, lmax))
            d = pol.distribution(ts)
            expect(np.allclose(d.mean.detach(), m, atol=1e-5) and np.allclose(d.stddev.detach(), sd, atol=1e-5), 'distribution before squashing')
            ents = []
            for path, p, (a, l, dr, e) in explore(lambda ch: draw_sac(ch, pol, ts, path_of=case['w'])):
                st.step()
                z = np.array([N3[i] for i in path[:len(rows) * na]]).reshape(len(rows), na)
                u = m + sd * z
                t = np.tanh(u)
                want = t * (hi - lo) / 2 + (hi + lo) / 2
                expect(np.allclose(a, want, atol=1e-4) and np.all(a >= lo - 1e-5) and np.all(a <= hi + 1e-5), 'action', a, 'expected', want)
                lw = np.sum(-.5 * z ** 2 - np.log(sd) - .5 * np.log(2 * np.pi) - np.log(1 - t ** 2 + 1e-6), 1)
                expect(l.shape == lw.shape and np.allclose(l, lw, atol=1e-3), 'log probability', l, 'expected', lw)
                expect(np.allclose(dr, want, atol=1e-4), 'drawn action', dr)
                expect(np.isclose(e, -np.mean(lw), atol=1e-3), 'entropy estimate', e)
            st.state(x.tobytes(), len(rows))
    st.trace()


def draw_sac(ch, pol, ts, path_of):
    with controlled_torch(ch, normals=N3):
        a, l = pol.compute_action_and_log_prob(ts)
    first = list(ch.path)
    # the same random numbers again, for the action alone and for the entropy

    class Again:
        def __init__(self):
            self.i = 0
            self.path = []

        def choose(self, n, p=None):
            self.i += 1
            return first[self.i - 1]
    with controlled_torch(Again(), normals=N3):
        d, ps = pol.draw_action(ts)
    with controlled_torch(Again(), normals=N3):
        e = pol.entropy(ts)
    expect(not a.requires_grad and not l.requires_grad and not d.requires_grad, 'results carry gradients')
    return a.numpy(), l.numpy(), d.numpy(), float(e)


def sac_cases(tier):
    for nin, na in itertools.product((1, 2), (1, 2)):
        for lim in ([-20., 2.], [-.5, .25], [0., 0.]):
            for w in itertools.product(range(3), repeat=2 if tier == 'quick' else 3):
                yield dict(nin=nin, na=na, lim=lim, w=list(w))


# ---------------------------------------------------------------- recurrent policy
class RNet(nn.Module):
    """h' = tanh(h + x v), mean = h' (first na entries); the last valid step of every sequence counts."""

    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.v = nn.Linear(input_shape[0], output_shape[0], bias=False)

    def forward(self, state, policy_state, lengths, **kw):
        h = policy_state.float().reshape(state.shape[0], -1)
        outs = []
        for t in range(state.shape[1]):
            h2 = torch.tanh(h + self.v(state[:, t].float()))
            live = (torch.as_tensor(lengths) > t).float()[:, None]
            h = live * h2 + (1 - live) * h
            outs.append(h)
        return h, h


def run_rec(case, st):
    nin, na, ls = case['nin'], case['na'], case['ls']
    pol = RecurrentGaussianTorchPolicy(policy_state_shape=(na,), network=RNet, input_shape=(nin,), output_shape=(na,), log_std_min=-1., log_std_max=.5)
    n = nin * na + na
    x = lattice(n, 1) * .5
    x[-na:] = ls[:na]
    pol.set_weights(torch.tensor(x, dtype=torch.float32))
    W = x[:nin * na].reshape(na, nin)
    sd = np.exp(np.clip(x[-na:], -1., .5))
    h0 = pol.reset()
    expect(tuple(h0.shape) == (na,) and bool(torch.all(h0 == 0)), 'initial policy state', h0)
    expect(pol.is_stateful, 'stateful')
    full = np.array([[.5, -1.], [-2., .75], [.25, 1.]])[:, :nin]
    h = np.zeros(na)
    th = h0
    for i, k in enumerate(case['w']):
        st.step()
        s = full[k]
        want = np.tanh(h + W @ s)
        before = th.clone()
        nxt = []

        def f():
            a, ps = pol.draw_action(torch.tensor(s, dtype=torch.float32), th)
            expect(tuple(a.shape) == (na,), 'shape of the action', a.shape)
            nxt.append(ps)
            return a.numpy()
        m, c = moments(f, t_draw, na)
        expect(np.allclose(m, want, atol=1e-4) and np.allclose(c, np.diag(sd ** 2), atol=1e-3), 'draws: mean', m, 'covariance', c.tolist(), 'expected', want, sd ** 2)
        expect(torch.equal(th, before), 'the policy state given was overwritten')
        for ps in nxt:
            expect(np.allclose(np.asarray(ps).reshape(-1), want, atol=1e-5), 'next policy state', ps)
        h, th = want, nxt[0].reshape(na)
        # the whole sequence at once, and a shorter one beside it
        seq = torch.zeros(2, 3, nin)
        seq[0, :i + 1] = torch.tensor(full[case['w'][:i + 1]], dtype=torch.float32)
        seq[1, 0] = torch.tensor(full[case['w'][0]], dtype=torch.float32)
        lens = torch.tensor([i + 1, 1])
        hs = torch.zeros(2, na)
        mw = np.stack([want, np.tanh(W @ full[case['w'][0]])])
        acts = mw + sd * np.array([-1.2, .4])[:na]
        lp = -.5 * np.sum(((acts - mw) / sd) ** 2 + 2 * np.log(sd) + np.log(2 * np.pi), -1)
        l = pol.log_prob_t(seq, torch.tensor(acts, dtype=torch.float32), hs, lens)
        expect(tuple(l.shape) == (2, 1) and np.allclose(l.detach()[:, 0], lp, atol=1e-4), 'log probability', l, 'expected', lp)
        d = pol.distribution(seq, hs, lens)
        expect(np.allclose(d.mean.detach(), mw, atol=1e-5), 'distribution')
        ent = np.sum(.5 * np.log(2 * np.pi * np.e) + np.log(sd))
        expect(np.isclose(float(pol.entropy()), ent, atol=1e-4), 'entropy', float(pol.entropy()), 'expected', ent, 'log deviations', x[-na:])
        st.state(h.tobytes(), sd.tobytes())
    st.trace()


def rec_cases(tier):
    for nin, na in itertools.product((1, 2), (1, 2)):
        for ls in ([-.5, .25], [-3., 0.], [.25, 2.], [-1., .5]):
            for w in itertools.product(range(3), repeat=2 if tier == 'quick' else 3):
                yield dict(nin=nin, na=na, ls=ls, w=list(w))


# ---------------------------------------------------------------- one policy per environment
class Counter(DeterministicPolicy):
    """Deterministic policy with a policy state that counts, and a number of resets."""

    def __init__(self, mu, stateful):
        super().__init__(mu, policy_state_shape=(1,) if stateful else None)
        self.resets = 0
        self._add_save_attr(resets='primitive')

    def draw_action(self, state, policy_state=None):
        a, _ = super().draw_action(state)
        return (a, None) if policy_state is None else (a + policy_state, policy_state + 1)

    def reset(self):
        self.resets += 1
        return np.array([float(self.resets)]) if self.policy_state_shape is not None else None


def run_vec(case, st):
    nin, na, stateful = 2, case['na'], case['stateful']
    n = case['n']
    base = Counter(lin(nin, na, lattice(nin * na, 0)), stateful)
    vec = VectorPolicy(base, n)
    W = [lattice(nin * na, 0) for _ in range(n)]
    R = [0] * n
    base.set_weights(lattice(nin * na, 3))          # the policies are copies
    base.reset()
    for op in case['w']:
        st.step()
        if op == 'r':
            ps = vec.reset()
            R = [r + 1 for r in R]
            expect((ps is None) == (not stateful), 'policy states', ps)
            if stateful:
                expect(ps.shape == (n, 1) and [float(x) for x in ps[:, 0]] == [float(r) for r in R], 'policy states after a reset', ps, R)
        elif op[0] == 'm':
            mask = [bool(int(c)) for c in (op[1:] * 2)[:n]]
            ps = vec.reset(np.array(mask))
            R = [r + (1 if b else 0) for r, b in zip(R, mask)]
            if stateful:
                expect(ps.shape == (n, 1) and all(float(ps[i, 0]) == float(R[i]) for i in range(n) if mask[i]), 'policy states after a masked reset', ps, R)
        elif op[0] == 'w':
            x = np.stack([lattice(nin * na, int(op[1]) + i) for i in range(n)])
            g = x.copy()
            vec.set_weights(g)
            g += 9
            W = [r.copy() for r in x]
        elif op[0] == 'n':
            k = int(op[1])
            vec.set_n(k)
            W = (W + [W[0].copy() for _ in range(k)])[:k]
            R = (R + [R[0]] * k)[:k]
            n = k
        elif op == 'S':
            d = tempfile.mkdtemp(prefix='verif-c34-')
            vec.save(os.path.join(d, 'p.msh'), full_save=True)
            vec = Serializable.load(os.path.join(d, 'p.msh'))
            shutil.rmtree(d)
        expect(len(vec) == n and tuple(vec.weights_size) == (n, nin * na), 'size', len(vec), vec.weights_size)
        gw = vec.get_weights()
        expect(gw.shape == (n, nin * na) and np.array_equal(gw, np.stack(W)), 'weights', gw.tolist())
        gw += 5
        expect([p.resets for p in vec._policy_vector] == R, 'resets of the policies', [p.resets for p in vec._policy_vector], 'expected', R)
        s = np.array([[.5 + i, -1. - i] for i in range(n)])
        ps = np.array([[10. * i] for i in range(n)]) if stateful else None
        a, nx = vec.draw_action(s, None if ps is None else ps.copy())
        want = np.stack([W[i].reshape(na, nin) @ s[i] + (10. * i if stateful else 0.) for i in range(n)])
        expect(a.shape == (n, na) and np.allclose(a, want), 'actions', a.tolist(), 'expected', want.tolist())
        expect((nx is None) if not stateful else np.array_equal(nx, ps + 1), 'next policy states', nx)
        flat = vec.get_flat_policy()
        expect(np.allclose(flat.get_weights(), W[0]), 'flat policy')
        st.state(np.stack(W).tobytes(), tuple(R))
    st.trace()


def vec_cases(tier):
    L = 3 if tier == 'quick' else 4
    for stateful, n, na in itertools.product((False, True), (1, 2, 3), (1, 2)):
        for w in itertools.product(['r', 'm10', 'm01', 'w1', 'n2', 'n3', 'S'], repeat=L):
            if w.count('S') > 1:
                continue
            yield dict(stateful=stateful, n=n, na=na, w=list(w))


# ---------------------------------------------------------------- movement primitives
def times(x):
    x = np.asarray(x, dtype=float).reshape(-1)
    return np.array([1., x[0], x[0] ** 2])


def run_promp(case, st):
    na, dur, per = case['na'], case['dur'], case['per']
    sig = None if case['sig'] is None else SIG[na][case['sig']].copy()
    mu = lin(3, na)
    pol = ProMP(mu, Features(n_outputs=3, function=times), dur, sigma=sig, periodic=per)
    x = lattice(3 * na, 2)
    g = x.copy()
    pol.set_weights(g)
    g += 9
    expect(np.array_equal(pol.get_weights(), x) and pol.weights_size == 3 * na and pol.is_stateful, 'weights')
    W = x.reshape(na, 3)
    ps = pol.reset()
    t = 0
    for op in case['w']:
        st.step()
        if op == 'r':
            ps = pol.reset()
            t = 0
        elif op == 'S':
            d = tempfile.mkdtemp(prefix='verif-c34-')
            pol.save(os.path.join(d, 'p.msh'), full_save=True)
            pol = Serializable.load(os.path.join(d, 'p.msh'))
            shutil.rmtree(d)
        elif op[0] == 'n':
            pol.set_duration(int(op[1]))        # the movement is complete at its last step
            dur = int(op[1]) - 1
        else:
            s = np.array([3., 4.])
            m = W @ times(t / dur)
            held = ps.copy()
            nxt = []

            def f():
                a, q = pol.draw_action(s, ps)
                expect(np.shape(a) == (na,), 'shape of the action', np.shape(a))
                nxt.append(q)
                return a
            mm, cc = moments(f, np_draw, na)
            expect(np.array_equal(ps, held), 'the policy state given was overwritten', ps, held)
            expect(np.allclose(mm, m, atol=1e-6) and np.allclose(cc, sig if sig is not None else 0., atol=1e-6), 'time', t, 'draws: mean', mm, 'covariance', cc, 'expected', m)
            for a in (m, m + .5):
                p = float(pol(s, a, ps))
                want = np.exp(logpdf(a, m, sig)) if sig is not None else float(a is m)
                expect(np.isclose(p, want), 'density', p, 'expected', want)
            t = t + 1 if per else min(t + 1, dur)
            for q in nxt:
                expect(np.shape(q) == tuple(pol.policy_state_shape) and float(np.asarray(q).reshape(-1)[0]) == t, 'next policy state', q, 'expected', t)
            ps = nxt[0]
        expect(np.shape(ps) == tuple(pol.policy_state_shape), 'shape of the policy state', ps)
        st.state(t, na)
    st.trace()


def promp_cases(tier):
    for na, dur, per, sig in itertools.product((1, 2), (2, 3), (False, True), (None, 0, 1)):
        for w in itertools.product(['d', 'r', 'S', 'n2', 'n4'], repeat=4 if tier == 'quick' else 5):
            if w.count('S') > 1 or w.count('n2') + w.count('n4') > 1:
                continue
            yield dict(na=na, dur=dur, per=per, sig=sig, w=list(w))


def feat1(x):
    x = np.asarray(x, dtype=float).reshape(-1)
    return np.array([1., np.tanh(x[0])])


def make_dmp(na, k):
    mu = lin(2, na)
    pol = DMP(mu, Features(n_outputs=2, function=feat1), np.array([1., -2.])[:na], .125, 2., np.array([3.] * na), np.array([1.] * na), np.array([4.] * na), np.array([.75] * na))
    pol.set_weights(np.zeros(2 * na) if k is None else lattice(2 * na, k))
    return pol


def run_dmp(case, st):
    na, k = case['na'], case['k']
    g = np.array([1., -2.])[:na]
    pol = make_dmp(na, k)
    expect(pol.weights_size == 2 * na and not pol.is_stateful, 'weights')
    y, z = np.zeros(na), np.zeros(na)
    ref = []                        # the trajectory from the start, the same after every reset
    i = 0
    pol.reset()
    s = np.zeros(1)
    for op in case['w']:
        st.step()
        if op == 'r':
            expect(pol.reset() is None, 'policy state')
            y, z, i = np.zeros(na), np.zeros(na), 0
            if len(set(map(str, g))) and not np.array_equal(g, np.array([1., -2.])[:na]):
                ref = []
        elif op == 'S':
            d = tempfile.mkdtemp(prefix='verif-c34-')
            pol.save(os.path.join(d, 'p.msh'), full_save=True)
            pol = Serializable.load(os.path.join(d, 'p.msh'))
            shutil.rmtree(d)
        else:
            a, ps = pol.draw_action(s, None)
            expect(ps is None and np.shape(a) == (na,), 'drawn', a, ps)
            if k is None:           # no forcing term: a damped spring towards the goal
                zd, yd = 4. * (.75 * (g - y) - z) / 2., z / 2.
                y, z = y + yd * .125, z + zd * .125
                expect(np.allclose(a, y), 'position', a, 'expected', y)
            if i < len(ref):
                expect(np.array_equal(a, ref[i]), 'the movement differs after a reset', a, ref[i])
            else:
                ref.append(a.copy())
            i += 1
            expect(pol(s, a, None) == 1. and pol(s, a + .5, None) == 0., 'density')
            b = a.copy()
            a += 100.               # the action belongs to the caller
            expect(pol(s, b, None) == 1., 'changing the action changed the policy')
        st.state(i, k is None)
    st.trace()


def dmp_cases(tier):
    for na, k in itertools.product((1, 2), (None, 0, 1)):
        for w in itertools.product(['d', 'r', 'S'], repeat=5 if tier == 'quick' else 7):
            if w.count('S') <= 1:
                yield dict(na=na, k=k, w=list(w))


def run_batch(case, st):
    kind, n, na = case['kind'], case['n'], case['na']
    if kind == 'gauss':
        pol = GaussianTorchPolicy(Net, (2,), (na,), std_0=.75)
    else:
        pol = BoltzmannTorchPolicy(Net, (2,), (na + 1,), beta=1.)
    a, ps = pol.draw_action(torch.zeros(n, 2))
    want = (n, na if kind == 'gauss' else 1)
    st.step()
    st.state(kind, n, na)
    st.trace()
    expect(tuple(a.shape) == want, 'shape of the actions drawn in', n, 'states:', tuple(a.shape), 'expected', want)


def batch_cases(tier):
    for n in (2, 3, 4) if tier == 'quick' else range(2, 9):
        yield dict(kind='gauss', n=n, na=1)
        yield dict(kind='gauss', n=n, na=2)
    yield dict(kind='boltzmann', n=3, na=1)


FAMILIES = [
    Family('batch_shape', batch_cases, run_batch, 'draws in batches of up to 4 (8) states have one row per state'),
    Family('gaussian', gauss_cases, run_gauss, 'every word of at most 2 (3) weight and deviation changes and reads x 4 Gaussian policies x 1-2 inputs x 1-2 actions; '
           'density, gradient and all draws at two states after each', chunk=10),
    Family('deterministic', det_cases, run_det, 'every word of 3 (4) weight vectors', chunk=20),
    Family('torch', torch_cases, run_torch, 'every word of 2 (3) weight changes, optimizer steps and temperatures x Gaussian, Boltzmann x sizes; all draws in one state and a batch', chunk=4),
    Family('sac', sac_cases, run_sac, 'every word of 2 (3) weight vectors x deviation limits x sizes; all draws', chunk=4),
    Family('recurrent', rec_cases, run_rec, 'every word of 2 (3) observations x deviations inside, at and outside the limits x sizes', chunk=4),
    Family('vector', vec_cases, run_vec, 'every word of 3 (4) resets, masked resets, weight changes, resizings and save/load x 1-3 environments, stateful or not', chunk=50),
    Family('promp', promp_cases, run_promp, 'every word of 4 (6) draws, resets and save/load x durations x periodic x covariance', chunk=20),
    Family('dmp', dmp_cases, run_dmp, 'every word of 5 (7) draws, resets and save/load, with and without forcing term', chunk=20),
]
