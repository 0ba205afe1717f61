"""C36: geometric, numerical and bookkeeping helpers compute what they document, on every input of the bounded domain."""
import itertools
import math
import os
import tempfile
import shutil

import cv2
import numpy as np
import torch

from mushroom_rl.core import Environment, MDPInfo, Serializable
from mushroom_rl.distributions import GaussianCholeskyDistribution, GaussianDiagonalDistribution, GaussianDistribution
from mushroom_rl.environments import LQR, CarOnHill, CartPole, GridWorld, InvertedPendulum, PuddleWorld, Segway, ShipSteering
from mushroom_rl.policy import DiagonalGaussianPolicy, GaussianPolicy, StateStdGaussianPolicy
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.utils.angles import (euler_to_mat, euler_to_quat, mat_to_euler, normalize_angle, normalize_angle_positive, quat_to_euler,
                                      shortest_angular_distance)
from mushroom_rl.utils.features import uniform_grid
from mushroom_rl.utils.frames import LazyFrames, preprocess_frame
from mushroom_rl.utils.numerical_gradient import numerical_diff_dist, numerical_diff_function, numerical_diff_policy
from mushroom_rl.utils.plot import get_mean_and_confidence, plot_mean_conf
from mushroom_rl.utils.torch import TorchUtils
from mc.harness import Family, expect
from checks.c34 import lin

ASSUMPTIONS = ['Euler angles of a rotation with the middle angle at +-90 degrees are not unique: there only the rotation they describe is compared']

PI = np.pi


# ---------------------------------------------------------------- angles
def angle(k, e):
    return k * PI / 8 + (0., 1e-12, -1e-12, 1e-7, -1e-7, 1e-3)[e]


def mod(x):
    return math.remainder(x, 2 * PI)


def run_angle(case, st):
    a = angle(*case['a'])
    st.step()
    for f in (float, np.float64, np.float32):
        x = f(a)
        tol = 1e-4 if f is np.float32 else 1e-9
        p = normalize_angle_positive(x)
        expect(0. <= p < 2 * PI + 1e-12 and abs(mod(p - float(x))) < tol, 'positive', x, '->', p)
        n = normalize_angle(x)
        expect(-PI - 1e-12 <= n <= PI + 1e-12 and abs(mod(n - float(x))) < tol, 'normalized', x, '->', n)
        if abs(float(x)) < 3.1:
            expect(abs(n - float(x)) < tol, 'an angle in range was changed', x, n)
        expect(abs(normalize_angle(n) - n) < tol or abs(abs(n) - PI) < tol, 'not idempotent', n)
    for b in case['b']:
        y = angle(b, 0)
        d = shortest_angular_distance(a, y)
        st.step()
        expect(abs(d) <= PI + 1e-12 and abs(mod(a + d - y)) < 1e-9, 'distance from', a, 'to', y, 'is', d)
    st.state(p > PI, case['a'][1])
    st.trace()


def angle_cases(tier):
    m = 40 if tier == 'quick' else 200
    for k in range(-m, m + 1):
        for e in range(6):
            yield dict(a=[k, e], b=list(range(-m, m + 1)))


# ---------------------------------------------------------------- rotations
def Rx(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def Ry(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def Rz(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def mat(e):
    return Rz(e[2]) @ Ry(e[1]) @ Rx(e[0])


def qmat(q):
    w, x, y, z = np.asarray(q, dtype=float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def run_euler(case, st):
    es = [np.array(e) * PI / 4 + case['off'] for e in case['e']]
    single = []
    for e in es:
        st.step()
        keep = e.copy()
        M = euler_to_mat(e)
        expect(np.allclose(M, mat(keep), atol=1e-9), 'rotation matrix of', keep, M.tolist())
        q = euler_to_quat(e)
        expect(q.shape == (4,) and np.isclose(np.linalg.norm(q), 1.) and np.allclose(qmat(q), mat(keep), atol=1e-9), 'quaternion of', keep, q)
        for back in (mat_to_euler(M), quat_to_euler(q), quat_to_euler(-q), quat_to_euler(q * 2.)):
            expect(back.shape == (3,) and np.allclose(mat(back), mat(keep), atol=1e-6), 'back to euler angles', keep, back)
            if abs(np.cos(keep[1])) > .1 and abs(keep[1]) < PI / 2:
                expect(all(abs(mod(x - y)) < 1e-6 for x, y in zip(back, keep)), 'euler angles', back, 'expected', keep)
        expect(np.array_equal(e, keep), 'the argument was changed')
        single.append((q, quat_to_euler(q)))
        st.state(*np.round(q, 3))
    # batches: one column per rotation
    E = np.stack(es, axis=1)
    Q = euler_to_quat(E)
    expect(Q.shape == (4, len(es)) and all(np.allclose(Q[:, i], single[i][0]) for i in range(len(es))), 'batch of quaternions')
    B = quat_to_euler(Q)
    expect(B.shape == (3, len(es)) and all(np.allclose(B[:, i], single[i][1]) for i in range(len(es))), 'batch of euler angles')
    st.trace()


def euler_cases(tier):
    lat = list(itertools.product(range(-4, 5), range(-2, 3), range(-4, 5))) if tier == 'quick' else list(itertools.product(range(-4, 5), repeat=3))
    for off in (0., .1, -.3):
        for i in range(0, len(lat), 3):
            yield dict(e=lat[i:i + 3], off=off)


# ---------------------------------------------------------------- numerical gradients
def run_grad(case, st):
    st.step()
    kind = case['kind']
    if kind == 'function':
        n, k, ints = case['n'], case['k'], case['ints']
        A = np.array([[2., -1., .5], [0., 3., 1.], [-2., .25, 1.]])[:n, :n]
        b = np.array([1., -2., .5])[:n]
        x = (np.array([1, -2, 3]) * (k + 1))[:n] if ints else (np.array([.5, -.25, 1.5]) * (k + 1))[:n]
        keep = x.copy()
        g = numerical_diff_function(lambda p: p @ A @ p + b @ p + 7., x)
        want = (A + A.T) @ keep + b
        expect(np.shape(g) == (n,) and np.allclose(g, want, atol=1e-4), 'gradient', g, 'expected', want)
        expect(np.array_equal(x, keep), 'the parameters were changed')
    elif kind == 'policy':
        pols = [lambda: GaussianPolicy(lin(2, 1), np.array([[.5]])), lambda: DiagonalGaussianPolicy(lin(2, 2), np.array([.5, 1.5])),
                lambda: StateStdGaussianPolicy(lin(2, 1), lin(2, 1))]
        pol = pols[case['p']]()
        w = (np.arange(pol.weights_size) % 3 - 1.) * .5 + .25 * case['k']
        if case['p'] == 1:
            w[4:] = [.5 + .125 * case['k'], 1.5]            # standard deviations
        elif case['p'] == 2:
            w[2:] = [.5 + .125 * case['k'], -.5]
        pol.set_weights(w.copy())
        s, a = np.array([.5, -1.]), np.array([.25, -.5])[:2 if case['p'] == 1 else 1]
        g = numerical_diff_policy(pol, s, a)
        want = pol(s, a) * np.asarray(pol.diff_log(s, a)).reshape(-1)
        expect(np.shape(g) == (pol.weights_size,) and np.allclose(np.ravel(g), want, atol=1e-5), 'gradient', g, 'expected', want)
        expect(np.array_equal(pol.get_weights(), w), 'the weights were not restored', pol.get_weights(), w)
    else:
        n = case['n']
        mu = np.array([.5, -1.])[:n]
        d = [lambda: GaussianDistribution(mu.copy(), np.eye(n) * .5), lambda: GaussianDiagonalDistribution(mu.copy(), np.array([.5, 2.])[:n]),
             lambda: GaussianCholeskyDistribution(mu.copy(), np.diag([1.5, 2.][:n]))][case['p']]()
        rho = d.get_parameters().copy()
        th = mu + np.array([.25, .5])[:n] * (case['k'] + 1)
        g = numerical_diff_dist(d, th)
        want = d(th) * d.diff_log(th)
        expect(np.shape(g) == (d.parameters_size,) and np.allclose(g, want, atol=1e-5), 'gradient', g, 'expected', want)
        expect(np.array_equal(d.get_parameters(), rho), 'the parameters were not restored', d.get_parameters(), rho)
    st.state(*[str(v) for v in case.values()])
    st.trace()


def grad_cases(tier):
    ks = range(3 if tier == 'quick' else 12)
    for n, k, ints in itertools.product((1, 2, 3), ks, (False, True)):
        yield dict(kind='function', n=n, k=k, ints=ints)
    for p, k in itertools.product(range(3), ks):
        yield dict(kind='policy', p=p, k=k)
    for p, n, k in itertools.product(range(3), (1, 2), ks):
        yield dict(kind='dist', p=p, n=n, k=k)


# ---------------------------------------------------------------- curves
T975 = {1: 12.7062047, 2: 4.30265273, 3: 3.18244631, 4: 2.77644511}      # published quantiles of Student's t


class Axes:
    def __init__(self):
        self.calls = []

    def plot(self, *a, **k):
        self.calls.append(('plot', a, k))

    def fill_between(self, *a, **k):
        self.calls.append(('fill', a, k))


def run_curve(case, st):
    st.step()
    data = np.array(case['d'], dtype=float)
    n = len(data)
    keep = data.copy()
    m, c = get_mean_and_confidence(data)
    mean = [sum(col) / n for col in zip(*case['d'])]
    half = []
    for j, col in enumerate(zip(*case['d'])):
        var = sum((x - mean[j]) ** 2 for x in col) / (n - 1)
        half.append(T975[n - 1] * math.sqrt(var / n))
    ok = [(np.isnan(x) and y == 0.) or np.isclose(x, y, rtol=1e-6) for x, y in zip(c, half)]     # no spread: no interval
    expect(np.shape(m) == (len(mean),) and np.allclose(m, mean) and all(ok), 'mean', m, mean, 'interval', c, half)
    ax = Axes()
    plot_mean_conf(case['d'], ax, color='red', label='x')
    (_, a, k), (_, b, q) = ax.calls
    expect(np.allclose(a[0], mean) and k['color'] == 'red' and k['label'] == 'x', 'curve', a, k)
    up, lo = np.maximum(b[1], b[2]), np.minimum(b[1], b[2])
    for j in range(len(mean)):
        if half[j]:
            expect(np.isclose(up[j], mean[j] + half[j]) and np.isclose(lo[j], mean[j] - half[j]), 'band', up, lo)
    expect(np.array_equal(b[0], np.arange(len(mean))) and q['facecolor'] == 'red', 'band', b[0], q)
    expect(np.array_equal(data, keep), 'the data were changed')
    st.state(n, len(mean), tuple(np.round(half, 6)))
    st.trace()


def curve_cases(tier):
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for w in itertools.product((0., 1., 3.), repeat=n):
            yield dict(d=[[x, (i % 2) * 2 + x, 5. - i] for i, x in enumerate(w)])
            yield dict(d=[[x] for x in w])


# ---------------------------------------------------------------- frames
def run_frames(case, st):
    st.step()
    if case['k'] == 'lazy':
        fr = [np.full((2, 3), 10 * i + v, dtype=np.uint8) for i, v in enumerate(case['v'])]
        lf = LazyFrames(list(fr), len(fr))
        keep = np.stack(fr)
        expect(tuple(lf.shape) == (len(fr), 2, 3), 'shape', lf.shape)
        a = np.array(lf)
        expect(a.dtype == np.uint8 and np.array_equal(a, np.stack(fr)), 'content')
        b = np.array(lf, dtype=np.float32)
        expect(b.dtype == np.float32 and np.array_equal(b, np.stack(fr)), 'content as float')
        a[:] = 0
        np.asarray(lf)[:] = 0
        lf.__array__()[:] = 0
        expect(np.array_equal(np.array(lf.copy()), keep), 'changing the array changed the frames')
        try:
            LazyFrames(list(fr), len(fr) + 1)
            ok = False
        except AssertionError:
            ok = True
        expect(ok, 'a history of the wrong length was accepted')
    else:
        c, size = case['c'], tuple(case['size'])
        img = np.zeros((12, 8, 3), dtype=np.uint8)
        img[:] = c
        img[:6, :, :] = case['top']
        keep = img.copy()
        out = preprocess_frame(img, size)
        gray = lambda x: .299 * x[0] + .587 * x[1] + .114 * x[2]
        expect(out.dtype == np.uint8 and out.shape == (size[1], size[0]), 'shape', out.shape, out.dtype)
        expect(abs(float(out[0, 0]) - gray(case['top'])) <= 1.5 and abs(float(out[-1, -1]) - gray(c)) <= 1.5, 'luminance', out[0, 0], out[-1, -1], gray(case['top']), gray(c))
        expect(np.array_equal(img, keep), 'the frame was changed')
    st.state(str(case))
    st.trace()


def frames_cases(tier):
    for n in (1, 2, 3, 4):
        for v in itertools.product((0, 5), repeat=n):
            yield dict(k='lazy', v=v)
    cs = list(itertools.product((0, 100, 255), repeat=3))
    for c, size in itertools.product(cs, ((4, 6), (8, 12), (3, 3), (16, 10))):
        yield dict(k='pre', c=c, top=cs[(cs.index(c) * 7 + 5) % len(cs)], size=size)


# ---------------------------------------------------------------- spaces and their description
def run_space(case, st):
    st.step()
    k = case['k']
    if k == 'box':
        lo, hi, shape = case['lo'], case['hi'], case['shape']
        types = {'int': int, 'float': float, 'uint8': np.uint8}
        kw = {} if case['dt'] is None else dict(data_type=types[case['dt']])
        if case['arr']:
            shp = tuple(shape)
            l = np.arange(np.prod(shp), dtype=float).reshape(shp) * -1. + lo
            h = np.arange(np.prod(shp), dtype=float).reshape(shp) + hi
            sp = Box(l.copy(), h.copy(), tuple(shape) if case['give'] else None, **kw)
        else:
            sp = Box(lo, hi, shape=tuple(shape), **kw)
            l, h = np.full(shape, lo), np.full(shape, hi)
        for s in (sp, reload_(sp)):
            expect(tuple(s.shape) == tuple(shape) and np.array_equal(s.low, l) and np.array_equal(s.high, h), 'box', s.low, s.high, s.shape)
            expect(s.data_type is types[case['dt'] or 'float'], 'data type', s.data_type)
        st.state(k, str(shape), lo, hi, case['arr'])
    else:
        n, m = case['n'], case['m']
        sp, ac = Discrete(n), Discrete(m)
        info = MDPInfo(sp, ac, case['g'], case['h'], case['dt'])
        for i in (info, reload_(info)):
            expect(tuple(i.size) == (n, m) and tuple(i.shape) == (1, 1), 'size', i.size, i.shape)
            expect(np.array_equal(i.observation_space.values, np.arange(n)) and i.action_space.n == m and i.action_space.data_type is int, 'values')
            expect(i.gamma == case['g'] and i.horizon == case['h'] and i.dt == case['dt'] and i.backend == 'numpy', 'description')
        box = Box(-1., 1., shape=(n, 2))
        expect(tuple(MDPInfo(box, ac, .9, 1).shape) == (n, 2, 1), 'shape')
        st.state(k, n, m, case['h'])
    st.trace()


def reload_(x):
    d = tempfile.mkdtemp(prefix='verif-c36-')
    x.save(os.path.join(d, 'x.msh'))
    y = Serializable.load(os.path.join(d, 'x.msh'))
    shutil.rmtree(d)
    return y


def space_cases(tier):
    for lo, hi in ((-1., 2.), (0, 1), (-np.inf, np.inf), (-3, 3.5)):
        for shape in ([1], [2], [2, 2], [1, 3], [2, 1, 2]):
            for dt in (None, 'float', 'int', 'uint8'):
                yield dict(k='box', lo=lo, hi=hi, shape=shape, arr=False, give=True, dt=dt)
                if np.isfinite(lo):
                    for give in (False, True):
                        yield dict(k='box', lo=lo, hi=hi, shape=shape, arr=True, give=give, dt=dt)
    for n, m, (g, h, dt) in itertools.product((1, 2, 5), (1, 3), ((.9, 10, .1), (1., np.inf, .5), (0., 1, 1e-3))):
        yield dict(k='info', n=n, m=m, g=g, h=h, dt=dt)


# ---------------------------------------------------------------- environments by name
class Plain(Environment):
    def __init__(self, *args, **kwargs):
        self.args = args, kwargs
        super().__init__(None)


class Factory(Environment):
    def __init__(self, *args, **kwargs):
        self.args = args, kwargs
        super().__init__(None)

    @staticmethod
    def generate(*args, **kwargs):
        return Factory('generated', *args, **kwargs)


def run_make(case, st):
    saved = dict(Environment._registered_envs)
    try:
        n = len(Environment.list_registered())
        for op in case['w']:
            st.step()
            if op[0] == 'r':
                cls = {'P': Plain, 'F': Factory}[op[1]]
                cls.register()
            else:
                name, dots, args, kw = op[1], op[2], op[3], op[4]
                try:
                    e = Environment.make('.'.join([name] + dots), *args, **kw)
                except KeyError:
                    expect(name not in Environment.list_registered(), 'registered name not found', name)
                    continue
                expect(name in Environment.list_registered(), 'unregistered name', name)
                want = tuple((['generated'] if name == 'Factory' else []) + dots + args)
                expect(type(e).__name__ == name and e.args == (want, kw), 'made', type(e), e.args, 'expected', want, kw)
            names = Environment.list_registered()
            expect(len(names) == len(set(names)), 'a name twice')
            st.state(op[0], len(names) - n)
        for name, cls in (('CarOnHill', CarOnHill), ('CartPole', CartPole), ('InvertedPendulum', InvertedPendulum), ('PuddleWorld', PuddleWorld),
                          ('Segway', Segway), ('ShipSteering', ShipSteering)):
            expect(type(Environment.make(name)) is cls, 'environment', name)
        e = Environment.make('GridWorld', 2, 3, goal=(1, 2))
        expect(type(e) is GridWorld and e.info.observation_space.n == 6, 'grid world')
        e = Environment.make('LQR', 3, eps=.25)
        expect(type(e) is LQR and e.A.shape == (3, 3) and e.Q[1, 1] == .25, 'LQR by name')
    finally:
        Environment._registered_envs.clear()
        Environment._registered_envs.update(saved)
    st.trace()


def make_cases(tier):
    ops = [['r', 'P'], ['r', 'F']] + [['m', n, d, a, k] for n in ('Plain', 'Factory') for d in ([], ['x'], ['x', 'y']) for a, k in (([], {}), ([1], {'z': 2}))]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for w in itertools.product(ops, repeat=n):
            if w[0][0] == 'r':
                yield dict(w=list(w))


# ---------------------------------------------------------------- generated LQR
def run_lqr(case, st):
    c = dict(case)
    kw = dict(eps=c['eps'], index=c['index'], scale=c['scale'], max_pos=c['mp'], max_action=c['ma'], gamma=c['g'], horizon=c['h'], episodic=c['ep'])
    ns, na = c['ns'], c['na']
    if c['init'] is not None:
        kw['initial_state'] = np.array(c['init'][:ns])
    env = LQR.generate(ns, **kw) if ns == na and c['form'] else LQR.generate(s_dim=ns, a_dim=na, **kw)
    st.step()
    q = np.full(ns, c['eps'] * c['scale'])
    r = np.full(na, (1 - c['eps']) * c['scale'])
    q[c['index']] = (1 - c['eps']) * c['scale']
    r[c['index']] = c['eps'] * c['scale']
    expect(np.array_equal(env.A, np.eye(ns)) and np.array_equal(env.B, np.eye(ns, na)), 'dynamics')
    expect(np.allclose(env.Q, np.diag(q)) and np.allclose(env.R, np.diag(r)), 'rewards', env.Q.tolist(), env.R.tolist())
    i = env.info
    expect(i.gamma == c['g'] and i.horizon == c['h'] and tuple(i.observation_space.shape) == (ns,) and tuple(i.action_space.shape) == (na,), 'info')
    expect(np.all(i.observation_space.high == c['mp']) and np.all(i.action_space.low == -c['ma']), 'limits')
    x, _ = env.reset()
    x = np.array(x)
    if c['init'] is not None:
        want = np.array(c['init'][:ns])
    else:
        want = np.full(ns, .9 * c['mp'] if np.isfinite(c['mp']) else 10.)
    expect(np.allclose(x, want), 'initial state', x, want)
    for k in range(3):
        u = np.array([1.5, -.5, 2.])[:na] * (k + 1) * (-1 if k == 1 else 1)
        uc = np.clip(u, -c['ma'], c['ma'])
        y, rew, ab, _ = env.step(u)
        st.step()
        rx = -(q @ (x * x) + r @ (uc * uc))
        ny = x.copy()
        for j in range(min(ns, na)):
            ny[j] += uc[j]
        out = bool(np.any(np.abs(ny) > c['mp']))
        if out and c['ep']:
            rx = -c['mp'] ** 2 * 10
        elif out:
            ny = np.clip(ny, -c['mp'], c['mp'])
        expect(np.allclose(y, ny) and np.isclose(rew, rx) and bool(ab) == (out and c['ep']), 'step', y, rew, ab, 'expected', ny, rx)
        x = ny
        if ab:
            break
    st.state(ns, na, out)
    st.trace()


def lqr_cases(tier):
    for ns, na, eps, scale in itertools.product((1, 2, 3), (1, 2, 3), (.1, .25), (1., 2.)):
        for index in range(min(ns, na)):
            for mp, ma, ep in ((np.inf, np.inf, False), (2., 1., False), (2., 1., True)):
                for init in (None, [.5, -1., 1.5]):
                    for form in ((True, False) if ns == na else (False,)):
                        for g, h in ((.9, 50), (.5, 7)):
                            yield dict(ns=ns, na=na, eps=eps, scale=scale, index=index, mp=mp, ma=ma, ep=ep, init=init, form=form, g=g, h=h)


# ---------------------------------------------------------------- optimizers keep their memory when the parameters are replaced
def run_torch(case, st):
    mk = lambda: [torch.nn.Parameter(torch.tensor([1., -2.])), torch.nn.Parameter(torch.tensor([[.5], [3.]]))]
    cls = {'sgd': lambda p: torch.optim.SGD(p, lr=.1, momentum=.5), 'adam': lambda p: torch.optim.Adam(p, lr=.1)}[case['opt']]
    ref, cur = mk(), mk()
    oref, ocur = cls(ref), cls(cur)
    for k, op in enumerate(case['w']):
        st.step()
        if op == 's':
            for ps, o in ((ref, oref), (cur, ocur)):
                TorchUtils.zero_grad(ps)
                loss = sum((((k + 1) * p - 1.) ** 2).sum() for p in ps)
                loss.backward()
                want = torch.cat([(2 * (k + 1) * ((k + 1) * p.detach() - 1.)).reshape(-1) for p in ps])
                g = TorchUtils.get_gradient(ps)
                expect(g.shape == want.shape and torch.allclose(g, want), 'gradient', g, want)
                o.step()
        elif op == 'z':
            TorchUtils.zero_grad(cur)
            TorchUtils.zero_grad(ref)
            expect(torch.equal(TorchUtils.get_gradient(cur), torch.zeros(4)), 'gradient after zero_grad')
        elif op == 'n':
            # the parameters are replaced by others with the same values (what loading an agent does)
            new = [torch.nn.Parameter(p.detach().clone()) for p in cur]
            TorchUtils.update_optimizer_parameters(ocur, new)
            cur = new
        else:
            w = torch.arange(4.) * .5 * (k + 1) - 1.
            TorchUtils.set_weights(ref, w)
            TorchUtils.set_weights(cur, w)
            expect(torch.allclose(cur[0].data, w[:2]) and torch.allclose(cur[1].data, w[2:].reshape(2, 1)), 'set weights')
            w += 7.
        a, b = TorchUtils.get_weights(ref), TorchUtils.get_weights(cur)
        expect(a.shape == (4,) and torch.allclose(a, b), 'op', k, op, 'weights', b, 'expected', a)
        b += 3.
        expect(torch.allclose(TorchUtils.get_weights(cur), a), 'the returned weights are shared')
        st.state(op, *np.round(a.numpy(), 4).tolist())
    st.trace()


def torch_cases(tier):
    for opt in ('sgd', 'adam'):
        for n in range(1, 6 if tier == 'quick' else 8):
            for w in itertools.product('snzw', repeat=n):
                yield dict(opt=opt, w=''.join(w))


# ---------------------------------------------------------------- grids of radial basis functions
def run_grid(case, st):
    n, lo, hi, eta, cyc = case['n'], case['lo'], case['hi'], case['eta'], case['cyc']
    d = len(n)
    g, w = uniform_grid(n, np.array(lo[:d]), np.array(hi[:d]), eta, cyc)
    axes, ws = [], []
    for i in range(d):
        l, h = lo[i], hi[i]
        if n[i] == 1:
            axes.append([(l + h) / 2])
            ws.append(abs(h - l) / 2)
        else:
            end = h - abs(h - l) / n[i] if cyc else h
            axes.append([l + (end - l) * j / (n[i] - 1) for j in range(n[i])])
            ws.append((1 + eta) * abs(end - l) / n[i])
    want = sorted(itertools.product(*axes))
    got = sorted(tuple(r) for r in g.tolist())
    st.step()
    expect(g.shape == (int(np.prod(n)), d) and np.allclose(got, want), 'centers', got, 'expected', want)
    expect(np.allclose(w, ws), 'widths', w, ws)
    st.state(tuple(n), eta, cyc)
    st.trace()


def grid_cases(tier):
    m = 4 if tier == 'quick' else 6
    for d in (1, 2, 3):
        for n in itertools.product(range(1, m + 1), repeat=d):
            for eta, cyc in itertools.product((.25, .5), (False, True)):
                yield dict(n=n, lo=[-1., .5, 2.], hi=[1., 2.5, 3.], eta=eta, cyc=cyc)


FAMILIES = [
    Family('angles', angle_cases, run_angle, 'all multiples of 22.5 degrees up to +-900 (4500) with 6 offsets; all pairs for the distance', chunk=40),
    Family('rotations', euler_cases, run_euler, 'a lattice of Euler angles in steps of 45 degrees x 3 offsets, alone and in batches', chunk=40),
    Family('gradients', grad_cases, run_grad, 'quadratic functions, Gaussian policies and distributions on a lattice'),
    Family('curves', curve_cases, run_curve, 'all data of up to 4 (5) runs over 3 values'),
    Family('frames', frames_cases, run_frames, 'histories of up to 4 frames, a lattice of colours and sizes'),
    Family('spaces', space_cases, run_space, 'bounds x shapes x ways to give them, and descriptions of discrete problems; each also reloaded'),
    Family('make', make_cases, run_make, 'every word of up to 3 (4) registrations and constructions by name', chunk=40),
    Family('lqr', lqr_cases, run_lqr, 'all generated LQRs of up to 3 states and actions on a lattice of settings, 3 steps each', chunk=40),
    Family('torch', torch_cases, run_torch, 'every word of up to 5 (7) optimizer steps, parameter replacements, resets and assignments', chunk=40),
    Family('grid', grid_cases, run_grid, 'all numbers of centers up to 4 (6) in up to 3 dimensions', chunk=40),
]
