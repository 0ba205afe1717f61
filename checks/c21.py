"""C21: minibatches and the epochs of the neural approximators."""
import itertools

import numpy as np
import torch
import torch.nn as nn

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import TorchApproximator, NumpyTorchApproximator
from mushroom_rl.utils.minibatches import minibatch_generator, minibatch_number
from mc.explore import explore, controlled_random
from mc.harness import Family, expect

ASSUMPTIONS = ['networks are linear and trained by plain gradient descent, so that each optimizer step is computed exactly by '
               'the reference; what the approximator feeds to network, loss and optimizer does not depend on them']


# ---------------------------------------------------------------- generator
def run_gen(case, st):
    n, bs, forms = case['n'], case['b'], case['f']

    def data():
        out = []
        for j, f in enumerate(forms):
            if f == 'np1':
                out.append(np.array([100. * j + i for i in range(n)]))
            elif f == 'np2':
                out.append(np.array([[100 * j + i, -i] for i in range(n)], dtype=int).reshape(n, 2))
            elif f == 't1':
                out.append(torch.tensor([100. * j + i for i in range(n)]))
            else:
                out.append(torch.tensor([[[100 * j + i, i]] for i in range(n)]).reshape(n, 1, 2))
        return out

    number = minibatch_number(n, bs)
    sizes = [bs] * (n // bs) + ([n % bs] if n % bs else [])
    expect(number == len(sizes), 'number of minibatches', number, 'expected', len(sizes))
    for path, p, (batches, orig, now) in explore(lambda ch: _gen(ch, bs, data())):
        seen = []
        expect(len(batches) == len(sizes), 'batches', len(batches), 'expected', len(sizes))
        for batch, s in zip(batches, sizes):
            expect(len(batch) == len(forms), 'arrays in a batch')
            rows = None
            for j, (x, o) in enumerate(zip(batch, orig)):
                expect(type(x) is type(o) and x.dtype == o.dtype, 'type of a minibatch')
                expect(tuple(x.shape) == (s,) + tuple(o.shape[1:]), 'shape of a minibatch', tuple(x.shape))
                first = [int(v) - 100 * j for v in x.reshape(s, -1)[:, 0]]
                rows = first if rows is None else rows
                expect(rows == first, 'rows of different arrays', rows, first)
                for r, v in zip(first, x):
                    expect(bool((v == o[r]).all()), 'content of a row')
            seen += rows
        expect(sorted(seen) == list(range(n)), 'rows', seen)
        expect(all(bool((a == b).all()) for a, b in zip(orig, now)), 'the arrays were changed')
        st.state(tuple(forms), bs, tuple(seen))
        st.step(len(batches))
        st.trace()
    st.outcome(n, bs)


def _gen(ch, bs, d):
    orig = [x.copy() if isinstance(x, np.ndarray) else x.clone() for x in d]
    with controlled_random(ch, patch_torch=True):
        out = list(minibatch_generator(bs, *d))
    return out, orig, d


def gen_cases(tier):
    N = 5 if tier == 'quick' else 7
    for n in range(1, N + 1):
        for bs in range(1, n + 2):
            for r in (1, 2, 3):
                for f in itertools.product(('np1', 'np2', 't1', 't2'), repeat=r):
                    if r == 3 and n > 3 or r == 2 and n > N - 1:
                        if f not in (('np1', 'np2', 't2'), ('np1', 't1')):
                            continue
                    yield {'n': n, 'b': bs, 'f': list(f)}


# ---------------------------------------------------------------- fitting
class Net(nn.Module):
    """value = w . [x, a]; two outputs when asked (returned as a tuple)"""
    modes = None
    inits = 0

    def __init__(self, input_shape, output_shape, dropout=False, n_out=1, **kw):
        super().__init__()
        self.w = nn.Parameter(torch.tensor([[.5, -.25]] * n_out, dtype=torch.float32))
        self.log = []
        self.inits = 0

    def weights_init(self):
        self.inits += 1
        with torch.no_grad():
            self.w.copy_(torch.tensor([[.5, -.25]] * len(self.w), dtype=torch.float32))

    def forward(self, x, a=None):
        self.log.append(self.training)
        x = x.reshape(len(x), -1).float()
        if a is not None:
            x = torch.cat([x, a.reshape(len(a), -1).float()], 1)
        y = x @ self.w.T
        return y[:, 0] if len(self.w) == 1 else (y[:, 0], y[:, 1])


LOSS_LOG = []


def mse1(y_hat, y, reduction='mean'):
    LOSS_LOG.append((y_hat.detach().clone(), [y.clone()], reduction))
    e = (y_hat - y) ** 2
    return e.mean() if reduction == 'mean' else e


def mse2(y_hat, y, z, reduction='mean'):
    LOSS_LOG.append((torch.stack(y_hat, 1).detach().clone(), [y.clone(), z.clone()], reduction))
    e = (y_hat[0] - y) ** 2 + 2 * (y_hat[1] - z) ** 2
    return e.mean() if reduction == 'mean' else e


LR = .125
XS = np.array([[1., 0.], [0., 1.], [1., 1.], [-1., .5], [.5, 2.]])
YS = [np.array([1., -2., .5, 3., -1.5]), np.array([10., 20., 30., 40., 50.]) / 16]
WS = np.array([1., 3., .5, 2., .25])


class Ref:
    def __init__(self, n_out):
        self.w = np.array([[.5, -.25]] * n_out)
        self.n_out = n_out

    def pred(self, rows):
        return XS[rows] @ self.w.T

    def loss(self, rows, weights):
        e = self.pred(rows) - np.stack([YS[k][rows] for k in range(self.n_out)], 1)
        coef = np.array([1., 2.])[:self.n_out]
        per = (coef * e ** 2).sum(1)
        if weights is None:
            c = np.full(len(rows), 1. / len(rows))
        else:
            c = weights[rows] / weights[rows].sum()
        grad = (2 * coef[:, None] * (e * c[:, None]).T) @ XS[rows]
        return float((c * per).sum()), grad

    def step(self, rows, weights):
        l, g = self.loss(rows, weights)
        self.w = self.w - LR * g
        return l


def run_fit(case, st):
    n, bs, E, weighted, nt, cls, split_in = (case[k] for k in ('n', 'b', 'e', 'w', 't', 'c', 'i'))
    eps, patience, vs = case.get('eps'), case.get('p', 1), case.get('vs', 1.)
    reinit, dropout, fits = case.get('re', False), case.get('dr', False), case.get('fits', 1)
    for path, p, _ in explore(lambda ch: _fit(ch, case, st, n, bs, E, weighted, nt, cls, split_in, eps, patience, vs, reinit, dropout, fits)):
        st.trace()
    st.outcome(n, bs, E)


def _fit(ch, case, st, n, bs, E, weighted, nt, cls, split_in, eps, patience, vs, reinit, dropout, fits):
    C = {'torch': TorchApproximator, 'numpy': NumpyTorchApproximator}[cls]
    kw = dict(input_shape=(2,), output_shape=(1,), network=Net, n_out=nt, optimizer={'class': torch.optim.SGD, 'params': {'lr': LR}},
              loss=mse1 if nt == 1 else mse2, n_fit_targets=nt)
    if bs:
        kw['batch_size'] = bs
    if reinit:
        kw['reinitialize'] = True
    if dropout:
        kw['dropout'] = True
    app = Regressor(C, **kw)
    net = app.model.network
    conv = (lambda a: torch.tensor(a)) if cls == 'torch' else (lambda a: np.array(a))
    xs = [XS[:n, :1], XS[:n, 1:]] if split_in else [XS[:n]]
    args = [conv(a) for a in xs] + [conv(YS[k][:n]) for k in range(nt)]
    keep = [np.array(a) for a in args]
    weights = WS[:n] if weighted else None
    fkw = {}
    if E is not None:
        fkw['n_epochs'] = E
    if weighted:
        fkw['weights'] = conv(WS[:n])
    if eps is not None:
        fkw.update(epsilon=eps, patience=patience)
    if vs != 1.:
        fkw['validation_split'] = vs
    ref = Ref(nt)
    ntr = int(np.ceil(n * vs))
    for fit in range(fits):
        LOSS_LOG.clear()
        net.log.clear()
        with controlled_random(ch, patch_torch=True):
            app.fit(*args, **fkw)
        if reinit:
            expect(net.inits == fit + 1, 'initializations', net.inits)
            ref = Ref(nt)
        log = list(LOSS_LOG)
        pos = 0
        best, count, epochs = np.inf, 0, 0
        limit = (np.inf if E is None else E) if eps is not None else (1 if E is None else E)
        last = None

        def read():
            nonlocal pos
            expect(pos < len(log), 'fewer loss evaluations than the epochs need')
            yh, ys, red = log[pos]
            pos += 1
            rows = []
            for v in ys[0].numpy():
                r = int(np.argmin(np.abs(YS[0][:n] - v)))
                expect(abs(YS[0][r] - v) < 1e-6, 'unknown target', v)
                rows.append(r)
            for k in range(nt):
                expect(np.allclose(ys[k].numpy(), YS[k][rows]), 'targets of different rows')
            return yh.numpy().reshape(len(rows), nt), rows

        while epochs < limit and (eps is None or count < patience):
            seen, losses = [], []
            sizes = [ntr] if not bs else [bs] * (ntr // bs) + ([ntr % bs] if ntr % bs else [])
            for s in sizes:
                yh, rows = read()
                expect(len(rows) == s, 'size of a minibatch', len(rows), 'expected', s)
                expect(np.allclose(yh, ref.pred(rows), atol=1e-4), 'prediction of the batch', rows, yh.tolist(), ref.pred(rows).tolist())
                losses.append(ref.step(rows, weights))
                seen += rows
                st.step()
            expect(sorted(seen) == list(range(ntr)), 'rows of an epoch', seen)
            last = float(np.mean(losses))
            if eps is not None:
                l = last
                if ntr < n:
                    yh, rows = read()
                    expect(rows == list(range(ntr, n)), 'validation rows', rows)
                    expect(np.allclose(yh, ref.pred(rows), atol=1e-4), 'validation after the epoch')
                    l = ref.loss(rows, weights)[0]
                if best - l > eps:
                    count, best = 0, l
                else:
                    count += 1
            epochs += 1
            st.state(repr(case), fit, tuple(seen), epochs)
        expect(pos == len(log), 'more loss evaluations than the epochs need', pos, len(log))
        expect(np.allclose(np.asarray(app.get_weights()).reshape(nt, 2), ref.w, atol=1e-4), 'weights after the fit', app.get_weights(), ref.w)
        expect(abs(app.model.loss_fit - last) < 1e-4, 'loss of the last epoch', app.model.loss_fit, last)
        if dropout:
            expect(all(net.log) and not net.training, 'train mode while fitting, evaluation mode afterwards')
        for a, b in zip(args, keep):
            expect(np.array_equal(np.asarray(a), b), 'the fit changed its arguments')
        pr = np.asarray(app.predict(*[conv(a) for a in xs]) if nt == 1 else app.predict(*[conv(a) for a in xs])[0].detach()) if cls == 'numpy' and nt == 1 else None
        if pr is not None:
            expect(np.allclose(pr, ref.pred(list(range(n)))[:, 0], atol=1e-4), 'prediction')
            if dropout:
                expect(not net.log[-1], 'prediction in evaluation mode')


def fit_cases(tier):
    N = 4 if tier == 'quick' else 5
    for n in range(1, N + 1):
        for bs in range(0, n + 2):
            for E in (None, 1, 2) if n <= 3 else (None,):
                for w in (False, True):
                    for nt in (1, 2):
                        for c in ('torch', 'numpy') if n <= 3 else ('torch',):
                            if c == 'numpy' and nt == 2:
                                continue
                            for i in (False, True):
                                if i and (n > 3 or E == 2):
                                    continue
                                yield {'n': n, 'b': bs, 'e': E, 'w': w, 't': nt, 'c': c, 'i': i}
    for n in (2, 3):
        for bs in (0, 1, 2):
            for opt in ({'re': True}, {'dr': True}, {'re': True, 'dr': True}):
                yield {'n': n, 'b': bs, 'e': None, 'w': False, 't': 1, 'c': 'numpy', 'i': False, 'fits': 2, **opt}
    for n in range(1, N + 1):
        for vs in (1., .75, .5, .25):
            for eps in (.001, .01, .3, 2.):
                for pat in (1, 2, 3):
                    for E in (None, 1, 4):
                        for w in (False, True):
                            for c in ('torch', 'numpy'):
                                yield {'n': n, 'b': 0, 'e': E, 'w': w, 't': 1, 'c': c, 'i': False, 'eps': eps, 'p': pat, 'vs': vs}
    for n in (2, 3):
        for bs in (1, 2):
            for vs in (1., .5):
                for eps in (.01, .3):
                    for E in (1, 2):
                        yield {'n': n, 'b': bs, 'e': E, 'w': False, 't': 1, 'c': 'torch', 'i': False, 'eps': eps, 'p': 2, 'vs': vs}
    for n in range(1, N + 1):
        for vs in (.75, .5, .25):
            for bs in (0, 2):
                yield {'n': n, 'b': bs, 'e': 2 if n < 4 else 1, 'w': True, 't': 1, 'c': 'torch', 'i': False, 'vs': vs}


FAMILIES = [
    Family('minibatches', gen_cases, run_gen, lambda t: 'up to %d rows, every batch size up to one more, up to 3 arrays or tensors, every permutation' % (5 if t == 'quick' else 7), chunk=8),
    Family('fit', fit_cases, run_fit, lambda t: 'up to %d samples, every batch size, 1-2 epochs with every permutation of each epoch, weights, targets, early stopping, validation' % (4 if t == 'quick' else 5), chunk=8),
]
