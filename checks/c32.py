"""C32: callbacks and learning logs record what happened and do not change it."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import torch
import torch.nn.functional as F

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.table import Table
from mushroom_rl.approximators.parametric import NumpyTorchApproximator, TorchApproximator
from mushroom_rl.core import Core, Dataset, DatasetInfo, Logger, VectorCore, VectorizedDataset
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.utils.callbacks import CollectDataset, CollectMaxQ, CollectParameters, CollectQ
from checks import c02, c13, c31
from checks.c03 import GAMMA, REW, close, conv, tolist, trans
from mc.harness import Family, expect
from mc.stubs import ScriptedAgent, ScriptedEnv, dump_dataset

ASSUMPTIONS = ['joining datasets marks the end of each piece as last (C03): besides the recorded flags, the last transition of every '
               'piece handed to the callback may be marked last',
               'losses are those of linear models trained by gradient descent, computed by an independent reference']


# ---------------------------------------------------------------- CollectDataset on datasets
def make(backend, stateful, n_envs=None):
    dt = torch.float64 if backend == 'torch' else float
    return DatasetInfo(backend, None, 7, GAMMA, (2,), dt, (1,), dt, (2,) if stateful else None, n_envs or 1)


FL = [(False, False), (False, True), (True, True)]


def piece(kind, backend, stateful, k0):
    """(dataset, rows, pieces' ends)"""
    if kind[0] == 'd':
        fl = [FL[int(x)] for x in kind[1:]]
        ds = Dataset(make(backend, stateful), n_steps=max(1, len(fl)))
        rows = [trans(k0 + i, f, stateful) for i, f in enumerate(fl)]
        for t in rows:
            ds.append(conv(t, backend), {} if backend == 'list' else {'k': t[1][0]})
        return ds, rows
    # vectorized: two environments, environment 1 inactive at the steps marked 0
    mask = [int(x) for x in kind[1:]]
    ds = VectorizedDataset(make(backend, stateful, 2), n_steps=2 * len(mask))
    per = [[], []]
    mk = (lambda x, **k: torch.tensor(x, **k)) if backend == 'torch' else (lambda x, **k: np.array(x))
    n = k0
    for i, m in enumerate(mask):
        ts = [trans(n, FL[(i + 1) % 3 if i else 0], stateful), trans(n + 1, FL[i % 3], stateful)]
        n += 2
        per[0].append(ts[0])
        if m:
            per[1].append(ts[1])
        cols = []
        for c in range(8 if stateful else 6):
            col = [t[c] for t in ts]
            kw = {} if c in (4, 5) else {'dtype': torch.float64}
            cols.append(mk(col, **kw))
        ds.append_vectorized(tuple(cols) + (() if stateful else (None, None)), [{'k': ts[0][1][0]}, {'k': ts[1][1][0]}], mk([True, bool(m)]))
    return ds, per[0] + per[1]


def snapshot(d):
    return [tolist(x) for x in d.parse()] + [len(d)]


def run_collect(case, st):
    b, stateful = case['b'], case['s']
    cb = CollectDataset()
    model = None
    k = 0
    for op in case['w']:
        st.step()
        if op == 'C':
            cb.clean()
            if model is not None:
                model = []
        else:
            ds, rows = piece(op, b, stateful, k)
            k += 12
            vec = op[0] == 'v'
            before = None if vec else snapshot(ds)
            cb(ds)
            if not vec:
                expect(before == snapshot(ds), 'the callback changed the dataset it was given')
            model = (model or []) + [(t, i == len(rows) - 1 or vec) for i, t in enumerate(rows)]
            ds.clear()      # what the loop does right after
        got = cb.get()
        if model is None:
            expect(got is None or len(got) == 0, 'something was collected from nothing')
            continue
        expect(len(got) == len(model), 'collected', len(got), 'transitions, expected', len(model))
        if not model:
            continue
        p = [tolist(x) for x in got.parse()]
        for c in range(5):
            expect(close(p[c], [t[c] for t, _ in model]), 'column', c, p[c], 'expected', [t[c] for t, _ in model])
        for la, (t, free) in zip(p[5], model):
            expect(bool(la) == bool(t[5]) or (free and la), 'last flags', p[5], 'of', model)
        if stateful:
            for c, x in zip((6, 7), got.parse_policy_state()):
                expect(close(tolist(x), [t[c] for t, _ in model]), 'policy states')
        if b != 'list':
            got.info.parse()
            ks = tolist(got.info['k'])
            expect([float(x) for x in np.reshape(ks, -1)] == [t[1][0] for t, _ in model], 'step information', ks)
        st.state(repr([t for t, _ in model]), b, stateful)
    st.trace()
    st.outcome(len(case['w']), None if model is None else len(model))


def collect_cases(tier):
    L = 4 if tier == 'quick' else 5
    for b in ('numpy', 'torch', 'list'):
        for s in (False, True):
            ops = ['C', 'd0', 'd01', 'd210'] + ([] if b == 'list' else ['v1', 'v101'])
            for n in range(1, L + 1):
                for w in itertools.product(ops, repeat=n):
                    yield {'b': b, 's': s, 'w': list(w)}


# ---------------------------------------------------------------- CollectDataset attached to the loops
def run_core(case, st):
    h = case['h'] or float('inf')
    env = ScriptedEnv(case['script'], h, case['b'])
    ag = ScriptedAgent(env.info, stateful=case['s'], episodic=case['e'], backend=case['b'])
    cb, cb2 = CollectDataset(), CollectDataset()
    core = Core(ag, env, callbacks_fit=[cb, cb2])
    for r, run in enumerate(case['runs']):
        if run == 'C':
            cb.clean()
            del ag.log[:]
            continue
        core.learn(quiet=True, **run)
        if run.get('x'):
            core.evaluate(n_steps=1, quiet=True)
    fits = [x[1] for x in ag.log if x[0] == 'fit']
    got = cb.get()
    st.step(len(fits))
    if not fits:
        expect(got is None or len(got) == 0, 'collected without a fit')
        return
    d = dump_dataset(got, case['s'], case['e'])
    n = len(d)
    last = 5
    for c in range(n):
        want = sum((f[c] for f in fits), []) if c != n - 1 else sum(f[c] for f in fits)
        if c == last:
            ends = set(np.cumsum([len(f[5]) for f in fits]) - 1)
            expect(all(a == w or (i in ends and a) for i, (a, w) in enumerate(zip(d[c], want))), 'last flags', d[c], 'of fits', want)
        else:
            expect(d[c] == want, 'field', c, 'collected', d[c], 'given to the fits', want)
    expect('C' in case['runs'] or dump_dataset(cb2.get(), case['s'], case['e']) == d, 'two callbacks differ')
    st.state(repr(d))
    st.trace()
    st.outcome(len(fits), case['h'])


def core_cases(tier):
    n = 6 if tier == 'quick' else 8
    for bits in itertools.product((0, 1), repeat=n):
        script = list(bits) + [0, 1, 0, 0, 1, 1] * 6
        for h in (9, 2):
            for runs in ([dict(n_steps=4, n_steps_per_fit=1), dict(n_steps=2, n_steps_per_fit=2)],
                         [dict(n_steps=5, n_steps_per_fit=2), 'C', dict(n_steps=3, n_steps_per_fit=3)],
                         [dict(n_episodes=3, n_episodes_per_fit=2), dict(n_episodes=1, n_episodes_per_fit=1)]):
                for b, s, e in (('numpy', False, False), ('torch', True, True)):
                    yield dict(script=script, h=h, runs=runs, b=b, s=s, e=e)


def run_vcore(case, st):
    env = c02.Env(case['scripts'], case['h'] or float('inf'), case['b'])
    ag = c02.Ag(env.info, env.E, case['s'], case['e'], case['b'])
    ag.log_len = lambda: [len(l) for l in env.log]
    cb = CollectDataset()
    core = VectorCore(ag, env, callbacks_fit=[cb])
    for run in case['runs']:
        env.done = [True] * env.E
        core.learn(quiet=True, **run)
    fits = [f for f, _ in ag.fits]
    st.step(env.joint)
    want = [r for f in fits for r in f[0]]
    if not want:
        return
    rows, ps, th, k = c02.dump(cb.get(), case['s'], case['e'])
    expect([r[:5] for r in rows] == [r[:5] for r in want], 'collected', rows, 'given to the fits', want)
    ends = set(np.cumsum([len(f[0]) for f in fits]) - 1)
    expect(all(a[5] == w[5] or (i in ends and a[5]) for i, (a, w) in enumerate(zip(rows, want))), 'last flags')
    if case['s']:
        expect(ps == [x for f in fits for x in f[1]], 'policy states')
    if case['e']:
        expect(th == [x for f in fits for x in f[2]], 'episode parameters', th, [f[2] for f in fits])
    expect(k == [x for f in fits for x in f[3]], 'step information')
    st.state(repr(rows))
    st.trace()
    st.outcome(len(fits), len(rows))


def vcore_cases(tier):
    n = 3 if tier == 'quick' else 4
    pats = list(itertools.product((0, 1), repeat=n))
    for E in (2, 3):
        for sc in itertools.product(pats, repeat=E):
            if E == 3 and (sc[2] != pats[2] and sc[2] != pats[5]):
                continue
            scripts = [list(s) + c02.TAIL for s in sc]
            for runs in ([dict(n_steps=6, n_steps_per_fit=1)], [dict(n_steps=8, n_steps_per_fit=3), dict(n_steps=4, n_steps_per_fit=2)],
                         [dict(n_steps=10, n_steps_per_fit=5)], [dict(n_episodes=4, n_episodes_per_fit=2)]):
                for b, s, e in (('numpy', False, False), ('torch', True, True)):
                    if 'n_steps' in runs[0] and e:
                        e = False
                    yield dict(scripts=scripts, h=3, runs=runs, b=b, s=s, e=e)


# ---------------------------------------------------------------- tables
def run_tables(case, st):
    n = case['n']
    shape = (2, 3)
    q = Table(shape) if n == 0 else EnsembleTable(n, shape)
    tabs = [q] if n == 0 else list(q.model)
    cq, cm = CollectQ(q), CollectMaxQ(q, np.array([1]))
    model = [np.zeros(shape) for _ in tabs]
    wq, wm = [], []
    v = 0
    for op in case['w']:
        st.step()
        if op == 'C':
            cq(None)
            cm(None)
            wq.append(np.mean(model, 0))
            wm.append(np.max(np.mean(model, 0)[1]))
        elif op == 'X':
            a, b = cq.get(), cm.get()
            cq.clean()
            cm.clean()
            expect(len(a) == len(wq) and len(b) == len(wm), 'data got before the cleaning is gone')
            wq, wm = [], []
        else:
            m, s, a = op[0] % len(tabs), op[1], op[2]
            v += 1
            val = [-3., 2., 5., -1., 8., .5][v % 6]
            tabs[m][np.array([s]), np.array([a])] = val
            model[m][s, a] = val
        gq, gm = cq.get(), cm.get()
        expect(len(gq) == len(wq) and len(gm) == len(wm), 'collected', len(gq), len(gm), 'entries, expected', len(wq))
        for x, y in zip(gq, wq):
            expect(np.allclose(x, y), 'collected action values', x.tolist(), 'expected', y.tolist())
        expect(np.allclose(gm, wm) if wm else True, 'collected maxima', gm, 'expected', wm)
        st.state(n, repr([m.tolist() for m in model]), repr([np.array(x).tolist() for x in gq]))
    for m, t in zip(model, tabs):
        expect(np.array_equal(t.table, m), 'collecting changed the table')
    st.trace()
    st.outcome(len(wq), repr(wm))


def table_cases(tier):
    L = 5 if tier == 'quick' else 6
    for n in (0, 1, 2, 3):
        ops = ['C', 'X', [0, 1, 2], [1, 1, 0], [2, 0, 1]] if n else ['C', 'X', [0, 1, 2], [0, 1, 0], [0, 0, 1]]
        for k in range(1, L + 1):
            for w in itertools.product(range(5), repeat=k):
                if 0 in w:
                    yield {'n': n, 'w': [ops[i] for i in w]}


# ---------------------------------------------------------------- parameters
PK = {'const': lambda size: Parameter(.5, size=size), 'lin': lambda size: LinearParameter(1., .2, 4, size=size),
      'vec': lambda size: Vector(), 'dec': lambda size: DecayParameter(1., .5, size=size), 'decmin': lambda size: DecayParameter(1., 1., min_value=.3, size=size)}


class Vector(Parameter):
    """A parameter whose value is an array that its updates change in place."""

    def __init__(self):
        super().__init__(1.)
        self._x = np.array([1., -1.])

    def get_value(self, *idx, **kw):
        return self._x

    def update(self, *idx, **kw):
        self._x += 1.


def pval(kind, n):
    if kind == 'vec':
        return np.array([1., -1.]) + n
    return {'const': .5, 'lin': max(1. - .2 * n, .2), 'dec': 1. / max(n, 1) ** .5, 'decmin': max(1. / max(n, 1), .3)}[kind]


def run_params(case, st):
    tab = case['t']
    p = PK[case['k']]((3,) if tab else (1,))
    cells = [0, 2] if tab else [None]
    cbs = [CollectParameters(p, np.array([c])) if tab else CollectParameters(p) for c in cells]
    count = {c: 0 for c in (0, 1, 2)}
    want = [[] for _ in cbs]
    for op in case['w']:
        st.step()
        if op == 'C':
            for cb, w, c in zip(cbs, want, cells):
                cb(None)
                w.append(pval(case['k'], count[c or 0]))
        elif op == 'X':
            cbs[0].clean()
            want[0] = []
        else:
            p.update(np.array([op])) if tab else p.update()
            count[op if tab else 0] += 1
        for cb, w in zip(cbs, want):
            g = cb.get()
            expect(len(g) == len(w) and np.allclose(np.array(g, dtype=float).reshape(-1), np.array(w, dtype=float).reshape(-1)), 'collected values', g, 'expected', w)
        st.state(case['k'], tab, repr(want), repr(count))
    st.trace()
    st.outcome(case['k'], repr(want))


def param_cases(tier):
    L = 5 if tier == 'quick' else 7
    for k in PK:
        for t in (False, True) if k != 'vec' else (False,):
            for n in range(1, L + 1):
                for w in itertools.product(['C', 'X', 0] + ([2] if t else []), repeat=n):
                    if 'C' in w:
                        yield {'k': k, 't': t, 'w': list(w)}


# ---------------------------------------------------------------- loss logs
class Lin(torch.nn.Module):
    made = 0

    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        Lin.made += 1
        self.w = torch.nn.Parameter(torch.tensor([[.5 * Lin.made, -.25, 1.][:input_shape[0]]] * output_shape[0]))

    def forward(self, x, a=None):
        q = x.float() @ self.w.T
        return q if a is None else q.gather(1, a.long().reshape(-1, 1))[:, 0]


DATA = [([[1., 0.], [0., 1.]], [1., -2.]), ([[1., 1.], [-1., .5], [.5, 2.]], [3., 0., -1.]), ([[2., -1.]], [4.])]
LR = .125


def run_loss(case, st):
    form, n, names = case['f'], case['n'], case['name']
    Lin.made = 0
    A = NumpyTorchApproximator if case['np'] else TorchApproximator
    kw = dict(network=Lin, optimizer={'class': torch.optim.SGD, 'params': {'lr': LR}}, loss=F.mse_loss, input_shape=(2,), output_shape=(1,))
    if n:
        kw['n_models'] = n
    if form == 'q':
        kw.update(output_shape=(2,), n_actions=2)
    reg = Regressor(A, **kw)
    M = n or 1
    nout = 2 if form == 'q' else 1
    W = [np.array([[.5 * (m + 1), -.25]] * nout) for m in range(M)]
    losses = [np.nan] * M
    tmp = tempfile.mkdtemp(prefix='verif-c32-')
    want = []
    try:
        logger = Logger('x', results_dir=tmp, log_console=False, use_timestamp=False)
        log_name = 'loss' if names is None else names
        path = os.path.join(str(logger.path), log_name + '.npy')
        attached = False
        for op in case['w']:
            st.step()
            if op == 'L':
                attached = True
                reg.set_logger(logger) if names is None else reg.set_logger(logger, names)
                continue
            j, idx = op
            x, y = np.array(DATA[j][0]), np.array(DATA[j][1])
            fk = {} if idx is None else {'idx': idx}
            cv = (lambda a: a) if case['np'] else torch.as_tensor
            if form == 'q':
                a = np.array([[i % 2] for i in range(len(x))])
                reg.fit(cv(x), cv(a), cv(y), **fk)
            else:
                reg.fit(cv(x), cv(y[:, None]), **fk)
            for m in (range(M) if idx is None else [idx]):
                rows = [i % 2 if form == 'q' else 0 for i in range(len(x))]
                e = np.array([x[i] @ W[m][rows[i]] - y[i] for i in range(len(x))])
                losses[m] = np.mean(e ** 2)
                g = np.zeros_like(W[m])
                for i in range(len(x)):
                    g[rows[i]] += 2 * e[i] * x[i] / len(x)
                W[m] = W[m] - LR * g
            if attached:
                want.append(list(losses))
            else:
                expect(not os.path.exists(path), 'a loss file without a logger')
            if attached:
                got = np.load(path)
                got = np.array(got, dtype=float).reshape(len(got), M)
                expect(got.shape[0] == len(want), 'rows in the loss file', got.shape[0], 'fits', len(want))
                expect(np.allclose(got, np.array(want), equal_nan=True, rtol=1e-4, atol=1e-5), 'losses in the file', got.tolist(), 'of the fits', want)
            for m in range(M):
                expect(np.allclose(np.array(reg[m].get_weights()).reshape(nout, 2), W[m], atol=1e-4), 'weights of model', m)
            st.state(form, n, repr(want))
        if attached:
            files = sorted(f for f in os.listdir(str(logger.path)) if f.endswith('.npy'))
            expect(files == ([log_name + '.npy'] if want else []), 'files', files)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    st.trace()
    st.outcome(form, n, repr(want))


def loss_cases(tier):
    L = 3 if tier == 'quick' else 4
    for form, n, name, npy in itertools.product(('g', 'q'), (0, 1, 2, 3), (None, 'my_loss'), (True, False)):
        ops = ['L', [0, None], [1, None]] + ([[2, 0], [1, n - 1]] if n else [[2, None]])
        for k in range(1, L + 1):
            for w in itertools.product(range(len(ops)), repeat=k):
                yield {'f': form, 'n': n, 'name': name, 'np': npy, 'w': [ops[i] for i in w]}


# ---------------------------------------------------------------- a logger does not change the learning
class Spy:
    def __init__(self, tmp=None):
        self.msgs, self.np = [], {}

    def info(self, m):
        self.msgs.append(m)

    def weak_line(self, *a, **k):
        self.msgs.append(None)

    strong_line = debug = warning = weak_line

    def log_numpy(self, **kw):
        for k, v in kw.items():
            self.np.setdefault(k, []).append(np.array(v, dtype=float))


def run_quiet_pg(case, st):
    res = []
    for log in (False, True):
        torch.manual_seed(3)
        np.random.seed(3)
        ag, _ = c31.build(case)
        spy = Spy()
        if log:
            ag.set_logger(spy)
        hist = []
        means = []
        for f in range(2):
            tr = c31.transitions(case, f)
            d = Dataset.generate(ag.mdp_info, ag.info, n_steps=len(tr))
            for t in tr:
                d.append(t, {})
            means.append(float(np.mean(np.asarray(d.undiscounted_return))))
            ag.fit(d)
            st.step()
            hist.append((np.array(ag.policy.get_weights()), np.array(ag._V.get_weights())))
        res.append(hist)
        if log:
            texts = [m for m in spy.msgs if m is not None]
            expect(len(texts) == 2, 'messages', len(texts), 'fits 2')
            for m, t in zip(means, texts):
                expect(str(m) in t or repr(np.float64(m)) in t, 'average return', m, 'in', t)
    for (p0, v0), (p1, v1) in zip(*res):
        expect(np.array_equal(p0, p1), 'the policy depends on the logger', p0, p1)
        expect(np.array_equal(v0, v1), 'the critic depends on the logger')
    st.state(repr(case))
    st.trace()
    st.outcome(case['alg'], repr(res[0][-1][0].round(6).tolist()))


def pg_cases(tier):
    fls = c31.FLAGS3 if tier == 'quick' else c31.FLAGS3 + list(itertools.product((0, 1, 2), repeat=4))
    for alg, pol, fl, r, ent, pre in itertools.product(('PPO', 'TRPO'), ('gauss', 'boltz'), fls, (0, 1), (0., .3), (0, 1)):
        yield dict(alg=alg, pol=pol, fl=list(fl), r=r, ent=ent, pre=pre, eps=.2, lam=.9, ep=2, b=2, ce=1, kl=.05, ls=3, cg=3, fits=2)


def run_quiet_dqn(case, st):
    res = []
    for log in (False, True):
        np.random.seed(case['seed'])
        ag = c13.build(case)
        spy = Spy()
        if log and case['at'] == 0:
            ag.set_logger(spy) if case['name'] is None else ag.set_logger(spy, loss_filename=case['name'])
        hist = []
        k = 0
        n_logged = 0
        for f in range(4):
            if log and case['at'] == f and f:
                ag.set_logger(spy) if case['name'] is None else ag.set_logger(spy, loss_filename=case['name'])
            d = c13.dataset(ag, range(k, k + 2), [False, True, False])
            k += 2
            ag.fit(d)
            st.step()
            w = [np.array(ag.approximator[i].get_weights()) for i in range(len(ag.approximator))]
            hist.append(w)
            n_logged += f >= case['at'] and k > case['init']
        if log:
            name = case['name'] or 'loss_Q'
            expect(set(spy.np) <= {name}, 'names in the log', list(spy.np))
            rows = spy.np.get(name, [])
            expect(len(rows) == n_logged, 'losses logged', len(rows), 'fits made', n_logged)
            expect(all(np.all(np.isnan(r) | (r >= 0)) for r in rows), 'losses', rows)
        res.append(hist)
    for a, b in zip(*res):
        expect(all(np.array_equal(x, y) for x, y in zip(a, b)), 'learning depends on the logger')
    st.state(repr(case))
    st.trace()
    st.outcome(case['alg'], repr(res[0][-1][0].round(5).tolist()))


def dqn_cases(tier):
    for alg, per, init, at, name, seed in itertools.product(('DQN', 'Double', 'Averaged', 'Maxmin', 'Dueling', 'Categorical', 'Quantile', 'Noisy', 'Rainbow'),
                                                            (False, True), (2, 5), (0, 2), (None, 'zz'), (1, 2)):
        if per and alg in ('Maxmin', 'Categorical', 'Quantile'):       # these do not support prioritized replay
            continue
        yield dict(alg=alg, b=2, init=init, cap=6, freq=2, clip=False, per=per, at=at, name=name, seed=seed)


FAMILIES = [
    Family('collect', collect_cases, run_collect, 'every sequence of at most 4 (thorough 5) datasets (flat, vectorized with idle environments) and cleanings; '
           'numpy, torch and list storage, with and without policy state'),
    Family('loop', core_cases, run_core, 'every termination script of length 6 (8) x horizon x three sequences of runs x two agent forms'),
    Family('vloop', vcore_cases, run_vcore, 'every termination script of length 3 (4) of 2 and 3 environments x fit periods that do and do not divide'),
    Family('tables', table_cases, run_tables, 'every sequence of at most 5 (6) writes, collections and cleanings; plain table and ensembles of 1-3', chunk=500),
    Family('parameters', param_cases, run_params, 'every sequence of at most 5 (7) updates, collections and cleanings; 4 schedules, scalar and tabular', chunk=500),
    Family('losses', loss_cases, run_loss, 'every sequence of at most 3 (4) fits (whole ensemble or one member) with the logger attached at any point', chunk=100),
    Family('logged_pg', pg_cases, run_quiet_pg, 'PPO, TRPO x policy x every flag pattern of length 3: two fits with and without logger', chunk=8),
    Family('logged_dqn', dqn_cases, run_quiet_dqn, 'nine deep value learners x memory x initial size x moment of attachment: four fits with and without logger', chunk=8),
]
