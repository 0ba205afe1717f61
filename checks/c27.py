"""C27: value approximators: every query and update reaches its own entries."""
import itertools

import numpy as np
import torch
from sklearn.linear_model import LinearRegression

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.table import Table
from mushroom_rl.approximators.ensemble import Ensemble
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.parametric import CMAC, LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.features import Features
from mushroom_rl.features.tiles import Tiles
from mc.harness import Family, expect

ASSUMPTIONS = ['a batch of one point may be returned without its batch dimension by the models that do so (tables, tile-coded ones); '
               'values are compared in order',
               'single precision for torch models; the variance of a torch ensemble is the unbiased one']


def flat(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().numpy()
    return np.asarray(x, dtype=float).reshape(-1)


def close(a, b, tol=1e-8):
    a, b = flat(a), flat(b)
    return a.shape == b.shape and np.allclose(a, b, atol=tol, rtol=tol)


# ---------------------------------------------------------------- tables
def run_table(case, st):
    S, A = case['shape']
    kw = {} if case['init'] is None else {'initial_value': case['init']}
    t0 = case['init'] or 0.
    n = case['n']
    tabs = [Table((S, A), **kw)] if not n else None
    ens = EnsembleTable(n, (S, A), **kw) if n else None
    if n:
        expect(len(ens) == n and ens.n_actions == A, 'size of the ensemble')
    ref = [np.full((S, A), t0, dtype=float) for _ in range(n or 1)]
    arr = lambda x: np.array([x])
    for k, (i, s, a) in enumerate(case['ops']):
        m = tabs[0] if not n else ens[i]
        v = 1.5 + k
        # every way to address an entry
        w = case['way']
        if w == 0:
            m[arr(s), arr(a)] = v
        elif w == 1:
            m[s, a] = v
        elif w == 2:
            m.fit((arr(s), arr(a)), v)
        else:
            m[arr(s), arr(a)] = m[arr(s), arr(a)] + v
            v = ref[i][s, a] + v
        ref[i][s, a] = v
        for j in range(n or 1):
            q = tabs[0] if not n else ens[j]
            expect(close(q.table, ref[j]) and q.shape == (S, A) and q.n_actions == A, 'table', j, q.table.tolist())
            for s_ in range(S):
                expect(close(q.predict(arr(s_)), ref[j][s_]), 'all values of a state')
                for a_ in range(A):
                    expect(close(q[arr(s_), arr(a_)], ref[j][s_, a_]) and close(q[s_, a_], ref[j][s_, a_]), 'one entry')
                    expect(close(q.predict(arr(s_), arr(a_)), ref[j][s_, a_]), 'one value')
        st.step()
    for states in itertools.product(range(S), repeat=2):
        zs = np.array(states).reshape(-1, 1)
        for acts in itertools.product(range(A), repeat=2):
            za = np.array(acts).reshape(-1, 1)
            if not n:
                expect(close(tabs[0].predict(zs, za), [ref[0][s, a] for s, a in zip(states, acts)]), 'values of a batch')
            else:
                check_comb(lambda **k: ens.predict(zs, za, **k), [np.array([r[s, a] for s, a in zip(states, acts)]) for r in ref], 'mean')
            st.step()
        if n:
            for s, a in zip(states, range(A)):
                check_comb(lambda **k: ens.predict(arr(s), arr(a), **k), [np.array(r[s, a]) for r in ref], 'mean')
        if not n:
            expect(close(tabs[0].predict(zs), [ref[0][s] for s in states]), 'all values of a batch')
        else:
            check_comb(lambda **k: ens.predict(zs, **k), [np.array([r[s] for s in states]) for r in ref], 'mean')
    for j in range(n or 1):
        expect(close((tabs[0] if not n else ens[j]).table, ref[j]), 'a prediction changed the table')
    st.state(repr(case['ops']), n, S, A)
    st.outcome(n, tuple(np.concatenate([r.reshape(-1) for r in ref])))
    st.trace()


COMB = {'mean': lambda p: np.mean(p, 0), 'sum': lambda p: np.sum(p, 0), 'min': lambda p: np.min(p, 0), 'max': lambda p: np.max(p, 0)}


def check_comb(predict, members, default, tol=1e-8, variance=True, unbiased=False):
    m = np.array(members)
    expect(close(predict(), COMB[default](m), tol), 'default combination of the ensemble')
    for name, f in COMB.items():
        expect(close(predict(prediction=name), f(m), tol), 'combination', name, flat(predict(prediction=name)), flat(f(m)))
        for idx in ([0], list(range(len(m)))[::-1], [len(m) - 1, 0]):
            expect(close(predict(prediction=name, idx=idx), f(m[idx]), tol), 'combination of chosen members', name, idx)
    if variance:
        r = predict(compute_variance=True)
        expect(close(r[0], COMB[default](m), tol) and close(r[1], m.var(0, ddof=1 if unbiased else 0), tol), 'variance of the ensemble')
        r = predict(compute_variance=True, prediction='min')
        expect(close(r[0], COMB['min'](m), tol), 'minimum with the variance of the ensemble')
    for i in range(len(m)):
        expect(close(predict(idx=i), m[i], tol), 'chosen member')


def table_cases(tier):
    D = 3 if tier == 'quick' else 4
    for n in (None, 1, 2):
        for shape in ([2, 2], [3, 2], [1, 2], [2, 3]):
            ops = [(i, s, a) for i in range(n or 1) for s in range(shape[0]) for a in range(shape[1])]
            d = D if shape[0] * shape[1] < 6 and n != 2 else D - 1
            for seq in itertools.product(ops, repeat=d):
                for way in range(4):
                    if way in (1, 2) and d == D and shape != [1, 2]:
                        continue
                    yield {'shape': shape, 'init': 2. if way == 3 else None, 'n': n, 'ops': [list(o) for o in seq], 'way': way}


# ---------------------------------------------------------------- regressors
X = np.array([[0., 1.], [1., 0.], [1., 1.], [2., -1.], [-1., 2.]])
Y = np.array([1., -2., .5, 3., 4.])
Y2 = np.array([10., 20., -30., 5., 1.])


def poly(x):
    return np.array([1., x[0], x[0] * x[1]])


def phi3(x):
    x = np.asarray(x, dtype=float)
    return np.stack([np.ones(x.shape[:-1]), x[..., 0], x[..., 0] * x[..., 1]], -1)


def pinv_fit(Phi, y):
    return np.linalg.lstsq(Phi, y, rcond=None)[0]


def feats(kind, x):
    return np.array([poly(r) for r in x]) if kind == 'phi' else np.asarray(x)


class TNet(torch.nn.Module):
    made = 0

    def __init__(self, input_shape, output_shape, dropout=False, **kw):
        super().__init__()
        k = TNet.made
        TNet.made += 1
        self.w = torch.nn.Parameter(torch.tensor([[((3 * i + 5 * j + 7 * k) % 11 - 5) / 4 for i in range(input_shape[0])] for j in range(output_shape[0])]))

    def forward(self, x, a=None):
        y = x.float() @ self.w.T
        return y if a is None else y.gather(1, a.long())[:, 0]


def states_of(idx):
    return X[list(idx)]


def run_reg(case, st):
    """kinds: generic / action / q, with linear, sklearn or torch models, alone or in ensembles"""
    kind, model, n, nA = case['kind'], case['m'], case['n'], 2
    out = 2 if case.get('out2') else 1
    TNet.made = 0
    kw = {}
    if model == 'linear' or model == 'phi':
        cls = LinearApproximator
        kw['input_shape'] = (3,) if model == 'phi' else (2,)
        if model == 'phi':
            kw['phi'] = Features(n_outputs=3, function=phi3)
    elif model == 'sk':
        cls = LinearRegression
        kw['input_shape'] = (2,)
        kw['fit_intercept'] = False
    else:
        cls = NumpyTorchApproximator if model == 'np' else TorchApproximator
        kw.update(input_shape=(2,), network=TNet, optimizer={'class': torch.optim.SGD, 'params': {'lr': .125}}, loss=torch.nn.functional.mse_loss)
    if kind == 'generic':
        kw['output_shape'] = (out,)
    else:
        kw['n_actions'] = nA
        kw['output_shape'] = (nA,) if kind == 'q' else (1,)
    default = case.get('pred', 'mean')
    if n:
        kw['n_models'] = n
        if default != 'mean':
            kw['prediction'] = default
    reg = Regressor(cls, **kw)
    expect(len(reg) == (n or 1), 'number of models', len(reg))
    tol = 1e-4 if model in ('np', 'torch') else 1e-8
    conv = (lambda a: torch.tensor(a)) if model == 'torch' else (lambda a: np.array(a))
    # reference parameters: [member][action] -> function of x
    rows = nA if kind == 'q' else out
    nact = nA if kind == 'action' else 1
    d = 3 if model == 'phi' else 2
    W = [[np.zeros((rows, d)) for _ in range(nact)] for _ in range(n or 1)]
    fitted = [[model != 'sk'] * nact for _ in range(n or 1)]
    if model in ('np', 'torch'):
        if kind == 'action':
            order = [(i, a) for a in range(nact) for i in range(n or 1)]     # one ensemble per action
        else:
            order = [(i, 0) for i in range(n or 1)]
        mods = [(reg.model if not n else reg.model[i]) if kind != 'action' else (reg.model[a] if not n else reg.model[a][i]) for i, a in order]
        for (i, a), m in zip(order, mods):
            W[i][a] = np.array(m.network.w.detach())
    for k, (member, samples, acts) in enumerate(case['ops']):
        x, a = states_of(samples), np.array(acts).reshape(-1, 1)
        y = Y[samples] + k
        if out == 2 and kind == 'generic':
            y = np.stack([Y[samples] + k, Y2[samples]], 1)
        elif model in ('np', 'torch') and kind != 'q':
            y = y.reshape(-1, 1)
        fk = {} if member is None else {'idx': member}
        if kind == 'generic':
            reg.fit(conv(x), conv(y), **fk)
        else:
            reg.fit(conv(x), conv(a), conv(y), **fk)
        for i in range(n or 1):
            if member is not None and i != member:
                continue
            for ac in range(nact):
                sel = [j for j in range(len(samples)) if kind != 'action' or acts[j] == ac]
                if not sel:
                    continue
                fitted[i][ac] = True
                P = feats(model, x[sel])
                if model in ('linear', 'phi', 'sk'):
                    W[i][ac] = np.atleast_2d(pinv_fit(P, y[sel]).T)
                elif kind == 'q':
                    w = W[i][0]
                    e = np.array([w[acts[j]] @ P[j] - y[j] for j in range(len(sel))])
                    g = np.zeros_like(w)
                    for j in range(len(sel)):
                        g[acts[j]] += 2 * e[j] * P[j] / len(sel)
                    W[i][0] = w - .125 * g
                else:
                    w = W[i][ac]
                    e = P @ w.T - y[sel].reshape(len(sel), -1)
                    W[i][ac] = w - .125 * (2 * e.T @ P / e.size)
        st.step()
        if not all(all(f) for f in fitted):
            continue
        for qs in case['q']:
            z = states_of(qs)
            F = feats(model, z)
            full = [np.concatenate([F @ W[i][a].T for a in range(nact)], 1) for i in range(n or 1)]   # member -> (batch, columns)
            if kind == 'generic':
                mem = full
                call = lambda **kk: reg.predict(conv(z), **kk)
            else:
                mem = full
                call = lambda **kk: reg.predict(conv(z), **kk)
            if not n:
                r = call()
                expect(close(r, mem[0], tol), kind, model, 'prediction of a batch', flat(r), flat(mem[0]))
                expect(len(r) == len(qs), 'size of the prediction')
                if kind != 'generic':
                    expect(tuple(r.shape) == (len(qs), nA), 'one column per action')
            else:
                check_comb(call, mem, default, tol, variance=kind != 'action' and (n > 1 or model != 'torch'), unbiased=model == 'torch')
            if kind != 'generic':
                # every choice of actions; for long batches every run of equal actions
                for av in itertools.product(range(nA), repeat=len(qs)) if len(qs) < 4 else [tuple((j >= c) ^ r for j in range(len(qs))) for c in range(len(qs)) for r in (0, 1)]:
                    za = np.array(av).astype(int).reshape(-1, 1)
                    mem_a = [np.array([f[j, av[j]] for j in range(len(qs))]) for f in full]
                    call_a = lambda **kk: reg.predict(conv(z), za if model != 'torch' else torch.tensor(za), **kk)
                    if not n:
                        expect(close(call_a(), mem_a[0], tol) and len(call_a()) == len(qs), kind, model, 'prediction of actions', av, flat(call_a()), flat(mem_a[0]))
                    elif kind == 'action':
                        check_comb(call_a, mem_a, default, tol, variance=False)
                    else:
                        # a vector-output regressor combines its members before the action is selected
                        for name in COMB:
                            expect(close(call_a(prediction=name), [COMB[name](np.array(full))[j, av[j]] for j in range(len(qs))], tol), 'prediction of actions', name)
                    st.step()
            # a single state
            r = call_single(reg, conv, z[0], n)
            expect(close(r, COMB[default](np.array([f[0] for f in full])), tol), 'prediction of a single state', flat(r))
            expect(close(reg(conv(z), **({} if not n else {})), COMB[default](np.array(full)), tol), 'calling the regressor predicts')
        if n and kind != 'action':
            for i in range(n):
                expect(close(reg[i].predict(conv(X)), feats(model, X) @ W[i][0].T, tol), 'member', i)
        st.state(repr(case), k)
    st.outcome(kind, model, n, tuple(np.round(np.concatenate([w.reshape(-1) for m in W for w in m]), 4)))
    st.trace()


def call_single(reg, conv, z, n):
    return reg.predict(conv(z))


def reg_cases(tier):
    th = tier == 'thorough'
    qs = [[0], [1, 0], [2, 3, 4, 0, 1], [4, 4, 1]]
    sets = [[0, 1, 2], [3, 4], [2, 0, 4, 1], [1]]
    for kind in ('generic', 'action', 'q'):
        for m in ('linear', 'phi', 'sk', 'np', 'torch'):
            if kind == 'q' and m in ('linear', 'phi', 'sk') or kind == 'action' and m == 'torch':
                continue
            for n in (None, 1, 2, 3):
                for out2 in (False, True) if kind == 'generic' else (False,):
                    if m == 'sk' and kind == 'action':
                        pass
                    members = [None] if not n else [None] + list(range(n))
                    for m1 in members:
                        for s1 in sets:
                            for s2 in sets:
                                if n == 3 and s2 is not sets[1]:
                                    continue
                                for a1 in ([tuple([0] * len(s1))] if kind == 'generic' else itertools.product(range(2), repeat=len(s1)) if th or n is None
                                           else [tuple(i % 2 for i in range(len(s1))), tuple([1] * len(s1)), tuple([0] * len(s1))]):
                                    a2 = [(i + 1) % 2 for i in range(len(s2))]
                                    preds = ['mean'] if not n else ['mean', 'min'] if not th else list(COMB)
                                    for p in preds:
                                        base = {'kind': kind, 'm': m, 'n': n, 'out2': out2, 'pred': p, 'q': qs if th else qs[:3]}
                                        # the first fit covers every action and member
                                        first = [None, [0, 1, 2, 3, 4], [0, 1, 0, 1, 1]]
                                        yield dict(base, ops=[first, [m1, s1, list(a1)], [None, s2, a2]])


# ---------------------------------------------------------------- tile-coded approximator
def ref_phi(tilings, x):
    out = []
    for t in tilings:
        v = np.zeros(t.size)
        i = t(x)
        if i is not None:
            v[i] = 1.
        out.append(v)
    return np.concatenate(out)


def run_cmac(case, st):
    out = case['out']
    tilings = Tiles.generate(case['nt'], case['N'], np.zeros(2), np.ones(2) * 2)
    reg = Regressor(CMAC, tilings=tilings, input_shape=(2,), output_shape=(out,)) if not case['act'] else \
        Regressor(CMAC, tilings=tilings, input_shape=(2,), n_actions=2)
    nm = 2 if case['act'] else 1
    F = sum(t.size for t in tilings)
    expect(reg.weights_size == F * out * nm, 'number of weights')
    W = [np.zeros((out, F)) for _ in range(nm)]
    P = np.array([ref_phi(tilings, x) for x in PTS])
    for k, (samples, acts) in enumerate(case['ops']):
        y = np.array([YS[i] + k for i in samples])[:, :out]
        yy = y[:, 0] if out == 1 else y
        kw = {'alpha': case['alpha']} if case['alpha'] != 1. else {}
        if case['act']:
            reg.fit(PTS[samples], np.array(acts).reshape(-1, 1), yy, **kw)
        else:
            reg.fit(PTS[samples], yy, **kw)
        for a in range(nm):
            sel = [j for j in range(len(samples)) if not case['act'] or acts[j] == a]
            if not sel:
                continue
            phi = P[[samples[j] for j in sel]]
            delta = y[sel] - phi @ W[a].T
            cnt = phi.sum(0)
            # each active tile receives the average, over the samples that activate it, of their share of the error
            dw = (delta / phi.sum(1, keepdims=True)).T @ phi
            W[a] = W[a] + case['alpha'] * dw / np.where(cnt == 0, 1., cnt)
        expect(close(reg.get_weights(), np.concatenate([w.reshape(-1) for w in W])), 'weights after fit', k)
        for qs in ([0], [1, 3], [4, 2, 0], [5]):
            full = np.concatenate([P[qs] @ w.T for w in W], 1)
            if case['act']:
                expect(close(reg.predict(PTS[qs]), full), 'values of all actions')
                for av in itertools.product(range(2), repeat=len(qs)):
                    expect(close(reg.predict(PTS[qs], np.array(av).reshape(-1, 1)), [full[j, av[j]] for j in range(len(qs))]), 'values of actions')
            else:
                expect(close(reg.predict(PTS[qs]), full), 'values', flat(reg.predict(PTS[qs])), flat(full))
                expect(close(reg.predict(PTS[qs[0]]), full[0]), 'value of a single point')
            st.step()
        if not case['act']:
            for q in (0, 3):
                g = np.asarray(reg.diff(PTS[q]), dtype=float).reshape(F * out, out)
                ref = np.zeros((F * out, out))
                for o in range(out):
                    ref[o * F:(o + 1) * F, o] = P[q]
                expect(close(g, ref), 'derivative of the values')
        st.state(repr(case), k)
    st.outcome(tuple(np.round(np.concatenate([w.reshape(-1) for w in W]), 5)))
    st.trace()


PTS = np.array([[.1, .1], [1.9, .3], [.9, 1.1], [1., 1.], [.2, 1.7], [.15, .2]])
YS = np.array([[1., -1.], [2., .5], [-3., 4.], [.25, 0.], [8., -2.], [5., 5.]])


def cmac_cases(tier):
    sets = [[0], [0, 5], [1, 2, 3], [0, 0, 1], [4, 3, 2, 1, 0]]
    for nt in (1, 2, 3):
        for N in ([2, 2], [3, 2]):
            for out in (1, 2):
                for act in (False, True) if out == 1 else (False,):
                    for alpha in (1., .5):
                        for s in itertools.product(range(len(sets)), repeat=2 if tier == 'quick' else 3):
                            ops = []
                            for k in s:
                                ops.append([sets[k], [(i + k) % 2 for i in range(len(sets[k]))]])
                            yield {'nt': nt, 'N': N, 'out': out, 'act': act, 'alpha': alpha, 'ops': ops}


# ---------------------------------------------------------------- derivatives with respect to the weights
def run_diff(case, st):
    m, out, na = case['m'], case['out'], case.get('na')
    TNet.made = 0
    if m == 'np':
        reg = Regressor(NumpyTorchApproximator, input_shape=(2,), output_shape=(out,), network=TNet)
    else:
        kw = {'phi': Features(n_outputs=3, function=phi3), 'input_shape': (3,)} if m == 'phi' else {'input_shape': (2,)}
        if case['kind'] == 'generic':
            reg = Regressor(LinearApproximator, output_shape=(out,), **kw)
        else:
            reg = Regressor(LinearApproximator, n_actions=na, output_shape=(na,) if case['kind'] == 'q' else (1,), **kw)
    w0 = np.array([((5 * j) % 11 - 5) / 4 for j in range(reg.weights_size)])
    for x in X:
        for a in [None] if case['kind'] == 'generic' else range(na):
            args = [x] if a is None else [x, np.array([a])]
            reg.set_weights(w0.copy())
            g = np.asarray(reg.diff(*args), dtype=float)
            no = 1 if a is not None else out
            num = np.zeros((len(w0), no))
            for j in range(len(w0)):
                hi, lo = w0.copy(), w0.copy()
                hi[j] += .5
                lo[j] -= .5
                reg.set_weights(hi)
                fh = flat(reg.predict(*[b[None] for b in args]))
                reg.set_weights(lo)
                num[j] = fh - flat(reg.predict(*[b[None] for b in args]))
            expect(close(g, num, 1e-4), 'derivative', m, case['kind'], flat(g), flat(num))
            expect(g.shape[0] == len(w0), 'shape of the derivative')
            if a is not None and case['kind'] == 'action':
                # the derivatives of all the actions: one per model, with respect to its own weights
                reg.set_weights(w0.copy())
                all_ = reg.diff(x, None)
                k = len(w0) // na
                expect(len(all_) == na and close(flat(np.asarray(all_[a], dtype=float)), flat(num)[k * a:k * (a + 1)], 1e-4), 'derivatives of all actions', all_, num)
            elif a is not None:
                reg.set_weights(w0.copy())
                all_ = np.asarray(reg.diff(x), dtype=float)
                expect(all_.shape == (len(w0), na) and close(all_[:, a], flat(num), 1e-4), 'derivatives of all actions', all_, num)
            st.step()
            st.state(repr(case), tuple(x), a)
    st.trace()


def diff_cases(tier):
    for m in ('linear', 'phi', 'np'):
        for out in (1, 2, 3):
            yield {'kind': 'generic', 'm': m, 'out': out}
    for m in ('linear', 'phi'):
        for kind in ('action', 'q'):
            for na in (2, 3):
                yield {'kind': kind, 'm': m, 'out': 1, 'na': na}


FAMILIES = [
    Family('tables', table_cases, run_table, lambda t: 'tables up to 3x2 and ensembles of 2, all sequences of %d writes, all batches of 2 queries' % (3 if t == 'quick' else 4)),
    Family('regressors', reg_cases, run_reg, 'generic, per-action and vector-output regressors of linear, featured, sklearn and torch models, alone and in ensembles of 1-3; three fits over sample and action patterns, all action batches', chunk=16),
    Family('tile_coding', cmac_cases, run_cmac, 'tile-coded approximators of 1-3 tilings, 1-2 outputs or actions, all sequences of fits over 5 sample sets'),
    Family('derivatives', diff_cases, run_diff, 'derivatives with respect to every weight'),
]
