"""C05: flattening and clearing a vectorized dataset."""
import itertools

import numpy as np
import torch

from mushroom_rl.core import VectorizedDataset, DatasetInfo
from mc.harness import Family, expect

ASSUMPTIONS = ['every transition carries distinct markers in every field; masked-out cells carry junk']

FLAGS = [(False, False), (False, True), (True, True)]


def tl(x):
    return (x.detach().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)).tolist()


def mk(x, backend, boolean=False):
    if backend == 'torch':
        return torch.tensor(x, dtype=torch.bool if boolean else torch.float64)
    return np.array(x, dtype=bool if boolean else float)


def has_info(x):
    """Whether the step of this number carries information, when only some do."""
    return int(x) % 5 in (3, 4)


class Driver:
    def __init__(self, E, backend, stateful, cap, infoform):
        dt = torch.float64 if backend == 'torch' else float
        di = DatasetInfo(backend, None, 50, .5, (2,), dt, (1,), dt, (1,) if stateful else None, n_envs=E)
        self.ds = VectorizedDataset(di, n_steps=cap)
        self.E, self.backend, self.stateful, self.infoform = E, backend, stateful, infoform
        self.rows = []                      # pending cells: list of rows, each a dict env -> transition
        self.k = 0
        self.junk = 0
        self.thetas = [[] for _ in range(E)]

    def append(self, mask, flags):
        cells = {}
        cols = [[] for _ in range(8)]
        infos = []
        for e in range(self.E):
            self.k += 1
            x = float(self.k) if mask[e] else -1000. - self.k
            fl = FLAGS[flags[e]] if mask[e] else (bool(self.k % 2), bool(self.k % 3))
            t = ([x, x + .25], [x + .5], x * 2, [x + .75, x + .125], fl[0], fl[1], [x + .375], [x + .625])
            for c, v in zip(cols, t):
                c.append(v)
            infos.append({'k': x, 'n': {'v': mk([x, -x], self.backend)}} if mask[e] and self.infoform != 'some' or self.infoform == 'dict'
                         or self.infoform == 'some' and mask[e] and has_info(x) else {})
            if mask[e]:
                cells[e] = t + (x,)
        b = self.backend
        step = [mk(c, b, i in (4, 5)) for i, c in enumerate(cols[:6])]
        step += [mk(c, b) for c in cols[6:]] if self.stateful else [None, None]
        if self.infoform == 'dict':
            infos = {'k': mk([i['k'] for i in infos], b), 'n': {'v': mk([tl(i['n']['v']) for i in infos], b)}}
        self.ds.append_vectorized(tuple(step), infos, mk(mask, b, True))
        self.rows.append(cells)

    def theta(self, mask):
        th = [[100. * e + len(self.thetas[e])] for e in range(self.E)]
        self.ds.append_theta_vectorized(mk(th, self.backend), mk(mask, self.backend, True))
        for e in range(self.E):
            if mask[e]:
                self.thetas[e].append(th[e])

    def flat_model(self, n=None):
        out = []
        for e in range(self.E):
            for r, row in enumerate(self.rows):
                if e in row:
                    t = row[e]
                    cut = r == len(self.rows) - 1
                    out.append((e, r, t, cut))
        return out if n is None else out[:n]

    def compare(self, d, model, what):
        expect(len(d) == len(model), what, 'has', len(d), 'transitions, expected', len(model))
        got = [tl(x) for x in d.parse()]
        for i, (e, r, t, cut) in enumerate(model):
            for f in range(5):
                expect(got[f][i] == t[f], what, 'position', i, 'field', f, got[f][i], 'expected', t[f],
                       'of environment', e, 'row', r)
            if t[5] or (cut and i + 1 < len(model)):
                expect(got[5][i], what, 'position', i, 'should be marked last')
            elif not cut:
                expect(not got[5][i], what, 'position', i, 'should not be marked last')
            elif i + 1 == len(model) and cut:
                expect(got[5][i], what, 'a trajectory cut by the end of the record is not marked last')
        if self.stateful:
            ps, pss = [tl(x) for x in d.parse_policy_state()]
            expect(ps == [t[6] for _, _, t, _ in model] and pss == [t[7] for _, _, t, _ in model], what,
                   'policy states', ps, pss)
        if model and self.infoform == 'some':
            if any(has_info(t[8]) for _, _, t, _ in model):
                got = tl(d.info['k'])
                expect(len(got) == len(model) and all(g == t[8] if has_info(t[8]) else g != g for g, (_, _, t, _) in zip(got, model)),
                       what, 'information given at some steps only', got, [t[8] for _, _, t, _ in model])
        elif model:
            expect(tl(d.info['k']) == [t[8] for _, _, t, _ in model], what, 'information', tl(d.info['k']))
            expect(tl(d.info['n_v']) == [[t[8], -t[8]] for _, _, t, _ in model], what, 'nested information')
        exp = [x for l in self.thetas for x in l]
        expect([tl(x) for x in d.theta_list] == exp, what, 'parameters', d.theta_list, 'expected', exp)

    def flatten(self, n=None, what='flatten'):
        if not self.rows:
            return
        d = self.ds.flatten(n) if n is not None else self.ds.flatten()
        self.compare(d, self.flat_model(n), what)
        # a derived dataset stays complete
        if len(d) > 1 and self.infoform != 'some':
            v = d[1:]
            m = self.flat_model(n)[1:]
            expect(tl(v.info['k']) == [t[8] for _, _, t, _ in m], what, 'information of a slice')
            expect(tl(v.reward) == [t[2] for _, _, t, _ in m], what, 'reward of a slice')

    def mask_model(self):
        return [[e in row for e in range(self.E)] for row in self.rows]

    def clear(self, n=None):
        if n is None:
            self.ds.clear()
            self.rows = []
        else:
            self.ds.clear(n)
            done = {(e, r) for e, r, _, _ in self.flat_model(n)}
            self.rows = [{e: t for e, t in row.items() if (e, r) not in done} for r, row in enumerate(self.rows)]
            while self.rows and not self.rows[0]:
                self.rows.pop(0)
        self.thetas = [[] for _ in range(self.E)]


def run(case, st):
    d = Driver(case['E'], case['backend'], case['stateful'], case['cap'], case['info'])
    for i, (op, x, y) in enumerate(case['ops']):
        if op == 'row':
            d.append(x, y)
            if case.get('twice'):
                d.flatten(what='flatten after %d operations' % i)
        elif op == 'theta':
            d.theta(x)
        elif op == 'fit':
            if not d.rows or sum(len(r) for r in d.rows) < x:
                continue
            d.flatten(x, 'flatten(%d) after %d operations' % (x, i))
            d.clear(x)
            d.flatten(what='residual after %d operations' % i)
        elif op == 'clear':
            d.clear()
            expect(len(d.ds) == 0, 'not empty after clear')
        st.step()
        st.state(case['E'], case['backend'], case['stateful'], case['info'], str(d.rows))
    d.flatten()
    d.flatten(what='second flatten')
    st.outcome(str(d.rows))
    st.trace()


def masks(E):
    return [list(m) for m in itertools.product([True, False], repeat=E) if any(m)]


def mask_cases(tier):
    """Every activity pattern, every last-flag pattern of small records."""
    grid = [(2, 3), (3, 2)] if tier == 'quick' else [(2, 4), (3, 3)]
    for E, T in grid:
        for ms in itertools.product(masks(E), repeat=T):
            for fl in (itertools.product([0, 1, 2], repeat=E) if tier == 'quick' else
                       itertools.product([0, 1, 2], repeat=E)):
                rows = [('row', m, [(f + r * (e + 1)) % 3 for e, f in enumerate(fl)]) for r, m in enumerate(ms)]
                for b in ('numpy', 'torch'):
                    yield {'E': E, 'backend': b, 'stateful': sum(fl) % 2 == 0, 'cap': T + 1,
                           'info': 'list' if fl[0] else 'dict', 'ops': rows, 'twice': True}
                    if fl[0]:
                        yield {'E': E, 'backend': b, 'stateful': False, 'cap': T + 1, 'info': 'some', 'ops': rows, 'twice': True}


def fit_cases(tier):
    """Rows interleaved with fits of every size: what is not handed over is kept."""
    T = 5 if tier == 'quick' else 6
    for E in (2, 3):
        full = [True] * E
        pats = [[full] * T]
        ms = masks(E)
        pats += [list(p) for p in itertools.product(ms, repeat=3)] if E == 2 or tier == 'thorough' else \
            [[m] + [full] * 3 for m in ms] + [[full, m, full, m] for m in ms]
        for p in pats:
            p = p + [full] * (T - len(p)) if len(p) < T else p
            for n in range(1, 2 * E + 2):
                for f0 in (0, 1):
                    ops = []
                    for r, m in enumerate(p):
                        ops.append(('row', m, [(f0 * (r + e)) % 3 for e in range(E)]))
                        for _ in range(E):
                            ops.append(('fit', n, None))
                    for b in ('numpy', 'torch'):
                        yield {'E': E, 'backend': b, 'stateful': (n + f0) % 2 == 0, 'cap': T + n, 'ops': ops,
                               'info': 'dict' if f0 else 'list'}
                        if f0:
                            yield {'E': E, 'backend': b, 'stateful': False, 'cap': T + n, 'ops': ops, 'info': 'some'}


def theta_cases(tier):
    for E in (2, 3):
        for ms in itertools.product(masks(E), repeat=3):
            ops = []
            for i, m in enumerate(ms):
                ops.append(('theta', m, None))
                ops.append(('row', [True] * E, [1] * E))
            for extra in ([], [('clear', None, None), ('theta', ms[0], None), ('row', ms[1], [2] * E)]):
                for b in ('numpy', 'torch'):
                    yield {'E': E, 'backend': b, 'stateful': False, 'cap': 8, 'info': 'list', 'ops': ops + extra}


FAMILIES = [
    Family('masks-and-flags', mask_cases, run, 'all activity masks of 2x3 and 3x2 (thorough 2x4, 3x3) records'),
    Family('fits-and-residuals', fit_cases, run, 'all fit sizes up to 2E+1 after every row, up to 5 (6) rows'),
    Family('parameters', theta_cases, run, 'all start masks over three starts, with a clear in between'),
]
