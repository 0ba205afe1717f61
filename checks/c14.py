"""C14: action-value and noise policies draw with the probabilities they declare."""
import itertools

import numpy as np
import torch

from mushroom_rl.approximators.table import Table
from mushroom_rl.policy import EpsGreedy, Boltzmann, Mellowmax, OrnsteinUhlenbeckPolicy, ClippedGaussianPolicy
from mushroom_rl.rl_utils.parameters import Parameter, LinearParameter, DecayParameter
from mc.harness import Family, expect
from mc.explore import explore, controlled_random, controlled_torch

ASSUMPTIONS = ['epsilon is a multiple of 1/8: the enumerated uniform draws (midpoints of eighths) then decide exactly',
               'drawing an action counts one use of the exploration parameter, of the epsilon-greedy policy as of the '
               'softmax ones; evaluating the probabilities counts one use for the softmax policies only (this is what the '
               'repository tests pin down)']
NS = 2


def table(rows):
    t = Table((len(rows), len(rows[0])))
    t.table[:] = np.array(rows, dtype=float)
    return t


def mellow_beta(q, omega, lo=-10., hi=10.):
    """Root of sum(exp(beta (q - mm)) (q - mm)) by bisection; 0 if the interval does not bracket it."""
    q = np.array(q, dtype=float)
    m = q.max() if omega > 0 else q.min()
    mm = m + np.log(np.mean(np.exp(omega * (q - m)))) / omega
    v = q - mm

    def f(b):
        z = b * v
        return float(np.sum(np.exp(z - z.max()) * v))
    if f(lo) == 0.:
        return lo
    if f(hi) == 0.:
        return hi
    if f(lo) * f(hi) > 0:
        return 0.
    for _ in range(200):
        mid = .5 * (lo + hi)
        if f(lo) * f(mid) <= 0:
            hi = mid
        else:
            lo = mid
    return .5 * (lo + hi)


def declared(cfg, q, n):
    """Probabilities of the actions when the parameter has been used n times."""
    x = cfg['x']
    if cfg['par'] == 'linear':
        v = x * max(1. - n / 4., 0.)
    elif cfg['par'] == 'decay':
        v = x / max(n, 1)
    else:
        v = x
    q = np.array(q, dtype=float)
    if cfg['pol'] == 'eps':
        best = q == q.max()
        return v / len(q) + (1. - v) * best / best.sum()
    if cfg['pol'] == 'mellow':
        v = mellow_beta(q, v)
    e = np.exp(v * q - (v * q).max())
    return e / e.sum()


def make(cfg):
    x = cfg['x']
    par = {'const': x, 'param': Parameter(x), 'linear': LinearParameter(x, 0., 4), 'decay': DecayParameter(x),
           'state': DecayParameter(x, size=(NS,))}[cfg['par']]
    if cfg['pol'] == 'mellow':
        return Mellowmax(par if not isinstance(par, float) else Parameter(x))
    return {'eps': EpsGreedy, 'boltzmann': Boltzmann}[cfg['pol']](par)


def run(case, st):
    cfg, rows = case['cfg'], case['rows']
    A = len(rows[0])
    for s in range(NS):
        S = np.array([s])
        for n_up in case['updates']:
            def fresh():
                pol = make(cfg)
                t = table(rows)
                pol.set_q(t)
                for _ in range(n_up):
                    if cfg['pol'] == 'mellow':
                        break
                    pol.update(S)
                return pol, t
            used = 0 if cfg['pol'] == 'mellow' else n_up
            soft = cfg['pol'] != 'eps'
            pol, t = fresh()
            expect(pol.get_q() is t, 'the policy uses another value function')
            n = used + (1 if soft else 0)
            p = np.asarray(pol(S), dtype=float).reshape(-1)
            exp = declared(cfg, rows[s], n)
            expect(np.allclose(p, exp, atol=1e-6), 'declared', p.tolist(), 'expected', exp.tolist(), 'state', s, 'uses', n)
            expect(np.all(p >= 0) and abs(p.sum() - 1) < 1e-9, 'not a distribution', p.tolist())
            for a in range(A):
                pol, t = fresh()
                pa = float(np.asarray(pol(S, np.array([a]))).reshape(-1)[0])
                expect(abs(pa - exp[a]) < 1e-6, 'probability of action', a, pa, 'expected', exp[a])
            # all draws, twice in a row: the second one sees the parameter used once more
            dist = {}

            def fn(ch):
                pol, t = fresh()
                with controlled_random(ch, lattice=8):
                    out = [pol.draw_action(S) for _ in range(2)]
                expect(np.allclose(t.table, np.array(rows)), 'drawing changed the values')
                for a, ps in out:
                    expect(ps is None and isinstance(a, np.ndarray) and a.shape == (1,), 'kind of action', a, ps)
                return tuple(int(a[0]) for a, _ in out)
            for path, pr, res in explore(fn):
                dist[res] = dist.get(res, 0.) + pr
                st.step()
            d1, d2 = declared(cfg, rows[s], used + 1), declared(cfg, rows[s], used + 2)
            for a, b in itertools.product(range(A), repeat=2):
                expect(abs(dist.get((a, b), 0.) - d1[a] * d2[b]) < 1e-6, 'draws', (a, b), 'have probability',
                       dist.get((a, b), 0.), 'expected', d1[a] * d2[b], 'state', s)
            st.state(str(cfg), str(rows[s]), n_up)
            st.outcome(str(np.round(exp, 6)))
    st.trace()


def cases(tier):
    lat = [-1., 0., 2.] if tier == 'quick' else [-1., -.5, 0., 2.]
    for A in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for row in itertools.product(lat, repeat=A):
            rows = [row, row[::-1]]
            for par in ('const', 'param', 'linear', 'decay'):
                ups = [0] if par in ('const', 'param') else [0, 1, 3]
                for x in (0., .25, .5, 1.):
                    if par == 'linear' and x not in (.5, 1.):
                        continue
                    if par == 'decay':
                        if x not in (.5, 1.):
                            continue
                        ups = [0] if x == 1. else [0, 1][:1]
                    if par == 'linear':
                        ups = [0, 2] if x == .5 else [0, 1, 3]
                    yield {'cfg': {'pol': 'eps', 'par': par, 'x': x}, 'rows': rows, 'updates': ups}
                for x in (0., .5, 3., -1.):
                    if par == 'decay' and A > 2:
                        continue
                    yield {'cfg': {'pol': 'boltzmann', 'par': par, 'x': x}, 'rows': rows,
                           'updates': [0] if par in ('const', 'param') else [0, 2]}
                if par in ('param', 'decay'):
                    for x in (.5, 3.):
                        yield {'cfg': {'pol': 'mellow', 'par': par, 'x': x}, 'rows': rows, 'updates': [0]}


def extreme_cases(tier):
    # near ties are no ties; softmax over values of any magnitude
    for A in (2, 3):
        for base in (0., 1., -3., 1e6):
            for ks in itertools.product((0, 1, 2), repeat=A):
                d = 1e-9 * max(abs(base), 1.)
                row = [base + k * d for k in ks]
                for x in (0., .5, 1.):
                    yield {'cfg': {'pol': 'eps', 'par': 'const', 'x': x}, 'rows': [row, row[::-1]], 'updates': [0]}
        for row in itertools.product((-2000., -1000., -999., 0., 1000., 1001.), repeat=A):
            for x in (0., 1., 2.5, -1.):
                yield {'cfg': {'pol': 'boltzmann', 'par': 'const', 'x': x}, 'rows': [row, row[::-1]], 'updates': [0]}
    for row in itertools.product((0., 1., 2.), repeat=4):
        yield {'cfg': {'pol': 'boltzmann', 'par': 'const', 'x': 1.}, 'rows': [row, row[::-1]], 'updates': [0]}
        yield {'cfg': {'pol': 'eps', 'par': 'const', 'x': .25}, 'rows': [row, row[::-1]], 'updates': [0]}


def run_state(case, st):
    """One exploration parameter per state: the draws in one state use that state's parameter."""
    rows = [[0., 1.], [1., 0.]]
    cls = {'eps': EpsGreedy, 'boltzmann': Boltzmann}[case['pol']]
    dist, seen = {}, []

    def prob(s, a, k):
        v = 1. / max(k, 1)
        q = np.array(rows[s])
        return float((v / 2 + (1 - v) * (q == q.max()) if case['pol'] == 'eps' else np.exp(v * q) / np.exp(v * q).sum())[a])

    def fn(ch):
        pol = cls(DecayParameter(1., size=(NS,)))
        pol.set_q(table(rows))
        out = []
        seen.clear()
        with controlled_random(ch, lattice=24):
            for op, s in case['ops']:
                if op == 'u':
                    pol.update(np.array([s]))
                elif op == 'p':
                    for a in (0, 1):
                        v = float(np.asarray(pol(np.array([s]), np.array([a]))).reshape(-1)[0])
                        full = np.asarray(pol(np.array([s])), dtype=float).reshape(-1)
                        seen.append((v, float(full[a])))
                else:
                    out.append(int(pol.draw_action(np.array([s]))[0][0]))
        return tuple(out)
    for path, pr, res in explore(fn):
        dist[res] = dist.get(res, 0.) + pr
        st.step()
    n = {}
    ps = []
    told = []
    for op, s in case['ops']:
        if op == 'p':
            for a in (0, 1):
                for _ in range(2):
                    if case['pol'] == 'boltzmann':      # evaluating a softmax counts one use
                        n[s] = n.get(s, 0) + 1
                    told.append(prob(s, a, n.get(s, 0)))
            continue
        n[s] = n.get(s, 0) + 1
        if op == 'd':
            ps.append([prob(s, a, n[s]) for a in (0, 1)])
    expect(np.allclose(np.array(seen).reshape(-1), told, atol=1e-6), 'probabilities told', seen, 'expected', told)
    for acts in itertools.product([0, 1], repeat=len(ps)):
        e = float(np.prod([p[a] for p, a in zip(ps, acts)]))
        expect(abs(dist.get(acts, 0.) - e) < 1e-6, 'draws', acts, dist.get(acts, 0.), 'expected', e)
    st.state(case['pol'], str(sorted(n.items())))
    st.outcome(str(sorted(dist.items())))
    st.trace()


def state_cases(tier):
    for pol in ('eps', 'boltzmann'):
        for ops in itertools.product([('u', 0), ('u', 1), ('d', 0), ('d', 1), ('p', 0), ('p', 1)], repeat=3 if tier == 'quick' else 4):
            if sum(o == 'd' for o, _ in ops) <= 2 and any(o != 'u' for o, _ in ops):
                yield {'pol': pol, 'ops': ops}


# ---------------------------------------------------------------- noise policies
class Mu:
    """Stand-in regressor: mean 2 s (+ 1 in the second component)."""
    output_shape = (2,)

    def predict(self, x, **kw):
        x = torch.as_tensor(np.asarray(x, dtype=float)).double()
        m = torch.stack([2 * x[..., 0], x[..., 0] + 1.], dim=-1)
        return m

    weights_size = 1


def run_noise(case, st):
    s = np.array([case['s']])
    lat = [-1., 0., 2.]
    mu = np.array([2 * case['s'], case['s'] + 1.])
    got, exp = {}, {}
    if case['pol'] == 'ou':
        sig, th, dt = torch.tensor([.5, 1.], dtype=torch.float64), .25, .25
        big = case.get('big', 1.)
        sig = sig * big
        x0 = torch.tensor([big, -big], dtype=torch.float64) if case['x0'] else None
        pol = OrnsteinUhlenbeckPolicy(Mu(), sig, th, dt, x0)
        start = np.array([big, -big]) if case['x0'] else np.zeros(2)
        expect(np.allclose(pol.reset().numpy(), start), 'initial noise')

        def fn(ch):
            x = pol.reset()
            out = []
            with controlled_torch(ch, lat if case['steps'] == 1 else lat[::2]):
                for _ in range(case['steps']):
                    a, x = pol.draw_action(s, x)
                    out += a.reshape(-1).tolist() + x.reshape(-1).tolist()
            expect(np.allclose(pol.reset().numpy(), start), 'the initial noise changed')
            return str(np.round(out, 6).tolist())

        def rf(ch):
            x = start
            out = []
            l2 = lat if case['steps'] == 1 else lat[::2]
            for _ in range(case['steps']):
                z = np.array([l2[ch.choose(len(l2))] for _ in range(2)])
                x = x - th * x * dt + sig.numpy() * np.sqrt(dt) * z
                out += (mu + x).tolist() + x.tolist()
            return str(np.round(out, 6).tolist())
    else:
        cov = torch.tensor([[1., .5], [.5, 1.25]], dtype=torch.float64)
        low, high = case['box']
        pol = ClippedGaussianPolicy(Mu(), cov, torch.tensor(low, dtype=torch.float64),
                                    torch.tensor(high, dtype=torch.float64))
        L = np.linalg.cholesky(cov.numpy())

        def fn(ch):
            with controlled_torch(ch, lat):
                a, ps = pol.draw_action(s)
            expect(ps is None, 'policy state')
            return str((np.round(a.reshape(-1).tolist(), 6) + 0.).tolist())

        def rf(ch):
            z = np.array([lat[ch.choose(3)] for _ in range(2)])
            return str((np.round(np.clip(mu + L @ z, low, high), 6) + 0.).tolist())
    for f, d in ((fn, got), (rf, exp)):
        for path, pr, res in explore(f):
            d[res] = d.get(res, 0.) + pr
            st.step()
    expect(set(got) == set(exp), 'drawn', sorted(set(got) - set(exp))[:3], 'not drawn', sorted(set(exp) - set(got))[:3])
    expect(all(abs(got[k] - exp[k]) < 1e-9 for k in exp), 'probabilities', got, exp)
    st.state(str(case))
    st.outcome(str(sorted(exp)))
    st.trace()


def noise_cases(tier):
    for s in (-1., 0., .5, 3.):
        for x0 in (False, True):
            for steps in (1, 2) if tier == 'quick' else (1, 2, 3):
                for big in (1., 50.):
                    yield {'pol': 'ou', 's': s, 'x0': x0, 'steps': steps, 'big': big}
        for box in (([-1., -1.], [1., 1.]), ([-10., 0.], [10., .5]), ([0., -10.], [0., 10.])):
            yield {'pol': 'clip', 's': s, 'box': box}


FAMILIES = [
    Family('tables', cases, run, 'all rows over a value lattice with 1..3 (4) actions, exploration values, schedules and '
           'prior updates; all outcomes of two successive draws'),
    Family('extremes', extreme_cases, run, 'values that almost tie and values of large magnitude, 2-4 actions; all outcomes of two successive draws'),
    Family('per-state', state_cases, run_state, 'all sequences of 3 (4) updates and draws in two states with one parameter '
           'per state'),
    Family('noise', noise_cases, run_noise, 'noise policies, all normal draws from a three-point lattice'),
]
