"""C18: built-in environments against their equations of motion, and the contract every environment keeps."""
import itertools
import warnings

import numpy as np
from scipy.integrate import odeint

from mushroom_rl.core import Environment
from mushroom_rl.environments import (CarOnHill, CartPole, FiniteMDP, GridWorld, GridWorldVanHasselt, InvertedPendulum, LQR, PuddleWorld,
                                      Segway, ShipSteering)
from mc.explore import controlled_random, explore
from mc.harness import Family, expect

warnings.filterwarnings('ignore')
ASSUMPTIONS = ['trajectories of the continuous environments are compared with an independent integration of the published equations, '
               'tolerance 1e-5 relative',
               'noise is drawn from a lattice of its range; every combination of draws of a step is explored',
               'the declared range of the observations is checked for environments that bound their state, until the episode is over',
               'rendering is not explored']
U4 = [.125, .375, .625, .875]
N3 = [-1., .5, 2.]


def wrap(a):
    a = float(a) % (2 * np.pi)
    return a - 2 * np.pi if a > np.pi else a


def ode(f, x, dt):
    return odeint(lambda y, t: f(y), np.array(x, dtype=float), [0, dt], rtol=1e-11, atol=1e-12)[-1]


class Spec:
    angles = ()
    bounded = False
    noisy = False


class Car(Spec):
    bounded = True
    cfgs = [dict(), dict(horizon=7, gamma=.5)]
    states = [(p, v) for p in (-1., -.95, -.5, 0., .3, .9, .999, 1.) for v in (-2.9, -1., 0., 1., 2.9)]
    actions = [(0,), (1,)]

    def make(self, c):
        return CarOnHill(**c)

    def inits(self, c):
        return [np.array([-.5, 0.])]

    def info(self, c):
        return c.get('horizon', 100), c.get('gamma', .95), .1

    def step(self, c, x, a):
        u = (-4., 4.)[a[0]]

        def f(y):
            p, v = y
            h1 = 2 * p + 1 if p < 0 else (1 + 5 * p * p) ** -1.5
            h2 = 2. if p < 0 else -15 * p * (1 + 5 * p * p) ** -2.5
            return [v, (u - 9.81 * h1 - v * v * h1 * h2) / (1 + h1 * h1)]
        y = ode(f, x, .1)
        if y[0] < -1 or abs(y[1]) > 3:
            return [(y, -1., True)], min(abs(y[0] + 1), abs(abs(y[1]) - 3))
        if y[0] > 1:
            return [(y, 1., True)], min(y[0] - 1, abs(abs(y[1]) - 3))
        return [(y, 0., False)], min(1 - abs(y[0]), abs(abs(y[1]) - 3))


class Cart(Spec):
    noisy = True
    angles = (0,)
    cfgs = [dict(), dict(noise_u=0.), dict(m=1., M=3., l=.7, g=5., max_u=20., noise_u=4., horizon=9, gamma=.3)]
    states = [(t, w) for t in (-1.5, -.4, 0., .2, 1.2, 2 * np.pi + .3, -3.5) for w in (-60., -3., 0., .5, 4., 45.)]
    actions = [(0,), (1,), (2,)]

    def make(self, c):
        return CartPole(**c)

    def inits(self, c):
        return [np.array([-np.pi / 8 + np.pi / 4 * u, 0.]) for u in U4]

    def info(self, c):
        return c.get('horizon', 3000), c.get('gamma', .95), .1

    def step(self, c, x, a):
        m, M, l, g, mu, nu = [c.get(k, d) for k, d in (('m', 2.), ('M', 8.), ('l', .5), ('g', 9.8), ('max_u', 50.), ('noise_u', 10.))]
        al = 1 / (m + M)
        out, mar = [], 9.
        for n in U4:
            u = (-mu, 0., mu)[a[0]] + nu * (2 * n - 1)

            def f(y):
                t, w = y
                # the moment terms use half of the length, as in Lagoudakis and Parr
                num = g * np.sin(t) - al * m * (l / 2) * w ** 2 * np.sin(2 * t) / 2 - al * np.cos(t) * u
                return [w, num / (4 * (l / 2) / 3 - al * m * (l / 2) * np.cos(t) ** 2)]
            y = ode(f, x, .1)
            y[0] = wrap(y[0])
            fell = abs(y[0]) > np.pi / 2
            mar = min(mar, abs(abs(y[0]) - np.pi / 2))
            out.append((y, -1. if fell else 0., fell))
        return out, mar


class Pend(Spec):
    angles = (0,)
    bounded = True
    cfgs = [dict(), dict(random_start=True), dict(m=.5, l=2., g=4., mu=.3, max_u=2., horizon=11, gamma=.4)]
    states = [(t, w) for t in (-3.1, -1.5, -.4, 0., .2, 1.2, 3.1, 7.) for w in (-9., -7.8, 0., .5, 7.85, 20.)]
    actions = [(-50.,), (-2.5,), (0.,), (1.,), (5.,), (6.,)]

    def make(self, c):
        return InvertedPendulum(**c)

    def clean(self, x):
        return np.array([wrap(x[0]), np.clip(x[1], -2.5 * np.pi, 2.5 * np.pi)])

    def inits(self, c):
        return [np.array([-np.pi + 2 * np.pi * u, 0.]) for u in U4] if c.get('random_start') else [np.array([np.pi / 2, 0.])]

    def info(self, c):
        return c.get('horizon', 5000), c.get('gamma', .99), .01

    def step(self, c, x, a):
        m, l, g, mu, um = [c.get(k, d) for k, d in (('m', 1.), ('l', 1.), ('g', 9.8), ('mu', .01), ('max_u', 5.))]
        u = min(max(a[0], -um), um)
        W = 2.5 * np.pi

        def f(y):
            w = min(max(y[1], -W), W)
            return [w, (-mu * w + m * g * l * np.sin(y[0]) + u) / (m * l * l)]
        y = self.clean(ode(f, x, .01))
        return [(y, np.cos(y[0]), False)], 1.


class Seg(Spec):
    angles = (0,)
    cfgs = [dict(), dict(random_start=True)]
    states = [(t, w, r) for t in (-1.5, -.4, 0., .3, 1.55, 6.5) for w in (-20., -5., 0., 2.) for r in (0., 30., -100.)]
    actions = [(-9.,), (-5.,), (0.,), (1.5,), (5.,), (80.,)]

    def make(self, c):
        return Segway(**c)

    def inits(self, c):
        return [np.array([-np.pi / 2 + np.pi * u, 0., 0.]) for u in U4] if c.get('random_start') else [np.array([-np.pi / 8, 0., 0.])]

    def info(self, c):
        return 300, .97, .01

    def step(self, c, x, a):
        u = min(max(a[0], -5.), 5.)
        Mr, Mp, Ip, Ir, l, r, g = .6, 2.55, 2.6e-2, 2 * 4.54e-4, .138, .055, 9.81

        def f(y):
            al, w = y[0], y[1]
            h1, h2, h3 = (Mr + Mp) * r * r + Ir, Mp * r * l * np.cos(al), l * l * Mp + Ip
            d = h1 * h3 - h2 * h2
            s = l * Mp * np.sin(al)
            return [w, -(h2 * r * s * w * w - g * h1 * s + (h1 + h2) * u) / d, (h3 * r * s * w * w - g * h2 * s + (h2 + h3) * u) / d]
        y = ode(f, x, .01)
        y[0] = wrap(y[0])
        if abs(y[0]) > np.pi / 2:
            return [(y, -10000., True)], abs(y[0]) - np.pi / 2
        return [(y, -(3 * y[0] ** 2 + .1 * y[1] ** 2 + .1 * y[2] ** 2), False)], np.pi / 2 - abs(y[0])


class Ship(Spec):
    angles = (2,)
    bounded = True
    cfgs = [dict(), dict(small=False), dict(n_steps_action=1), dict(n_steps_action=5)]
    # around the gates (100,120)-(120,100) and (350,400)-(450,400), and at the borders
    states = [(x, y, t, w) for (x, y) in ((0., 0.), (149.9, 70.), (60., .2), (109.5, 109.5), (110.4, 110.4), (100.5, 118.), (120.6, 99.), (118.9, 100.2),
                                          (400., 399.5), (400., 400.7), (449.9, 399.2), (999.5, 999.))
              for t in (0., np.pi / 4, np.pi / 2, -3 * np.pi / 4, np.pi) for w in (0., .2, -.25)]
    # the path bends around the end of a gate: its second stretch passes on one side, the chord on the other
    for _e in ((100., 120.), (120., 100.), (350., 400.), (450., 400.)):
        for _k in range(16):
            for _w in (np.pi / 12, -np.pi / 12):
                _t = _k * np.pi / 8 - np.pi + .01
                _v = [np.zeros(2)]
                for _i in range(3):
                    _v.append(_v[-1] + .6 * np.array([np.cos(_t + _i * .2 * _w), np.sin(_t + _i * .2 * _w)]))
                for _f in (.1, .25, .5):
                    _d = (1 - _f) * _v[1] + _f * (_v[0] * .6 + _v[2] * .4)
                    states.append((_e[0] - _d[0], _e[1] - _d[1], _t, _w))
    # exactly through the ends
    states += [(x, y, 0., 0.) for x, y in ((99.75, 120.), (119.75, 100.), (109.75, 110.))]
    actions = [(-9.,), (-.2,), (0.,), (.1,), (.27,)]

    def make(self, c):
        return ShipSteering(**c)

    def inits(self, c):
        if c.get('small', True):
            return [np.array([0., 0., np.pi / 2, 0.])]
        lo, hi = np.array([0, 0, -np.pi, -np.pi / 12]), np.array([1000, 1000, np.pi, np.pi / 12])
        return [lo + (hi - lo) * np.array(u) for u in itertools.product(U4, repeat=4)]

    def info(self, c):
        return 5000, .99, .2

    def inside(self, c, x):
        f = 150 if c.get('small', True) else 1000
        return 0 <= x[0] <= f and 0 <= x[1] <= f

    def step(self, c, x, a):
        small = c.get('small', True)
        F = 150. if small else 1000.
        g0, g1 = (np.array([100., 120.]), np.array([120., 100.])) if small else (np.array([350., 400.]), np.array([450., 400.]))
        r = min(max(a[0], -np.pi / 12), np.pi / 12)
        x = np.array(x, dtype=float)
        mar = 9.
        for _ in range(c.get('n_steps_action', 3)):
            y = np.array([x[0] + 3 * np.cos(x[2]) * .2, x[1] + 3 * np.sin(x[2]) * .2, wrap(x[2] + x[3] * .2), x[3] + (r - x[3]) * .2 / 5])
            mar = min(mar, *[abs(v) if abs(v) > 1e-12 else 9. for v in (y[0], y[1], y[0] - F, y[1] - F)])
            if min(y[:2]) < 0 or max(y[:2]) > F:
                y[:2] = np.clip(y[:2], 0, F)
                return [(y, -100., True)], mar
            # segments cross: each one's ends on different sides of the other's line
            p, q = x[:2], y[:2]

            def side(u, v, w):
                return (v[0] - u[0]) * (w[1] - u[1]) - (v[1] - u[1]) * (w[0] - u[0])
            d = [side(g0, g1, p), side(g0, g1, q), side(p, q, g0), side(p, q, g1)]
            if d[0] * d[1] <= 0 and d[2] * d[3] <= 0 and abs(side(g0, g1, p)) + abs(side(g0, g1, q)) > 0:
                return [(y, 0., True)], min(mar, *[abs(v) if abs(v) > 1e-12 else 9. for v in d])
            mar = min(mar, *[abs(v) for v in d])
            x = y
        return [(x, -1., False)], mar


class Puddle(Spec):
    noisy = True
    bounded = True
    cfgs = [dict(), dict(noise_step=0., noise_reward=.5, reward_goal=7.), dict(noise_step=.1, thrust=.2, goal_threshold=.3, goal=[.5, .8], start=[.9, .1],
            puddle_center=[[.5, .5]], puddle_width=[[.2, .1]], horizon=3, gamma=.1)]
    states = [(x, y) for x in (0., .31, .42, .79, .97) for y in (0., .52, .61, .93, 1.)]
    actions = [(k,) for k in range(5)]

    def make(self, c):
        c = {k: (np.array(v) if k in ('goal', 'start') else v) for k, v in c.items()}
        return PuddleWorld(**c)

    def inits(self, c):
        return [np.array(c.get('start', [.2, .4]))]

    def info(self, c):
        return c.get('horizon', 5000), c.get('gamma', .99), .1

    def step(self, c, x, a):
        ns, nr, th = c.get('noise_step', .025), c.get('noise_reward', 0), c.get('thrust', .05)
        goal = np.array(c.get('goal', [1., 1.]))
        cen = c.get('puddle_center', [[.3, .6], [.4, .5], [.8, .9]])
        wid = c.get('puddle_width', [[.1, .03], [.03, .1], [.03, .1]])
        d = [np.array([-th, 0.]), np.array([th, 0.]), np.array([0., -th]), np.array([0., th]), np.zeros(2)][a[0]]
        out, mar = [], 9.
        for u in itertools.product(U4 if ns else U4[:1], repeat=2):
            y = np.clip(np.array(x) + d + ns * (2 * np.array(u) - 1) * (1. if ns else 0.), 0, 1)
            dist = abs(y - goal).sum()
            gt = c.get('goal_threshold', .1)
            mar = min(mar, abs(dist - gt))
            if dist < gt:
                out.append((y, c.get('reward_goal', 0.), True))
            else:
                r = -1.
                for cc, w in zip(cen, wid):
                    r -= 2 / (2 * np.pi * w[0] * w[1]) * np.exp(-.5 * ((y[0] - cc[0]) / w[0]) ** 2 - .5 * ((y[1] - cc[1]) / w[1]) ** 2)
                out += [(y, r + nr * n, False) for n in (N3 if nr else [0.])]
        return out, mar


A2 = [[1., .2], [-.1, .9]]
B2 = [[1., 0.], [.5, -1.]]


class Lqr(Spec):
    cfgs = [dict(), dict(max_pos=2., max_action=1.), dict(max_pos=2., max_action=1., episodic=True), dict(random_init=True, max_pos=2.),
            dict(initial_state=[1., -1.5], horizon=4, gamma=.2)]
    states = [(x, y) for x in (-1.9, 0., .7, 1.9) for y in (-1.5, 0., 1.8)]
    actions = [(u, v) for u in (-3., -.5, 0., 1.) for v in (-.4, 0., 2.5)]

    @property
    def bounded(self):
        return True

    def mats(self):
        return np.array(A2), np.array(B2), np.diag([2., .5]), np.array([[1., .1], [.1, .3]])

    def make(self, c):
        c = dict(c)
        if 'initial_state' in c:
            c['initial_state'] = np.array(c['initial_state'])
        return LQR(*self.mats(), **c)

    def inits(self, c):
        mp = c.get('max_pos', np.inf)
        if c.get('random_init'):
            return [np.clip(np.array([-3 + 6 * u for u in w]), -mp, mp) for w in itertools.product(U4, repeat=len(self.mats()[0]))]
        if 'initial_state' in c:
            return [np.array(c['initial_state'])]
        return [np.ones(len(self.mats()[0])) * (.9 * mp if np.isfinite(mp) else 10.)]

    def info(self, c):
        return c.get('horizon', 50), c.get('gamma', .9), .1

    def step(self, c, x, a):
        mp, ma = c.get('max_pos', np.inf), c.get('max_action', np.inf)
        x, u = np.array(x), np.clip(np.array(a), -ma, ma)
        A, B, Q, R = self.mats()
        r = -(x @ Q @ x + u @ R @ u)
        y = A @ x + B @ u
        mar = float(min(abs(abs(y) - mp))) if np.isfinite(mp) else 1.
        if max(abs(y)) > mp:
            if c.get('episodic'):
                return [(y, -10. * mp * mp, True)], mar
            y = np.clip(y, -mp, mp)
        return [(y, r, False)], mar


class Lqr3(Lqr):
    cfgs = [dict(), dict(max_pos=.75, max_action=.5), dict(max_pos=.75, max_action=.5, episodic=True), dict(max_pos=2.5, random_init=True)]
    states = [(x, y, z) for x in (-.45, 0., .2) for y in (-.3, .4) for z in (0., .49)]
    actions = [(u, v, -u) for u in (-3., -.25, 0., 1.) for v in (-.4, 0., 2.5)]

    def mats(self):
        return (np.array([[.9, .2, 0.], [0., 1., -.5], [.3, 0., 1.1]]), np.array([[1., 0., .5], [.25, -1., 0.], [0., .1, 2.]]),
                np.array([[1., .2, 0.], [.2, 2., 0.], [0., 0., .5]]), np.diag([.3, .7, 1.1]))


class Lqr1(Lqr):
    cfgs = [dict(max_pos=3., max_action=1.), dict(max_pos=3., max_action=1., episodic=True)]
    states = [(x, y) for x in (-2.9, 0., 1.) for y in (-1., 2.8)]
    actions = [(u,) for u in (-3., -.25, 0., 1., 1.5)]

    def mats(self):
        return np.array([[1., .1], [0., 1.]]), np.array([[0.], [.5]]), np.diag([1., .25]), np.array([[.1]])


SPECS = {'lqr3': Lqr3(), 'lqr1': Lqr1(), 'car': Car(), 'cart': Cart(), 'pend': Pend(), 'seg': Seg(), 'ship': Ship(), 'puddle': Puddle(), 'lqr': Lqr()}


def clean(sp, x):
    if hasattr(sp, 'clean'):
        return sp.clean(x)
    x = np.array(x, dtype=float)
    for i in sp.angles if not isinstance(sp, Ship) else ():
        x[i] = wrap(x[i])
    return x


def same(a, b, ang):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    d = np.abs(a - b)
    for i in ang:
        d[i] = min(d[i], abs(d[i] - 2 * np.pi))
    return bool(np.all(d <= 1e-5 * np.maximum(1., np.abs(b))))


def match(sp, got, outs):
    o, r, ab = got
    for i, (y, rr, aa) in enumerate(outs):
        if same(o, y, sp.angles) and abs(float(np.squeeze(r)) - rr) <= 2e-5 * max(1., abs(rr)) and bool(ab) == aa:
            return i
    return None


class Free:
    """Draws nothing in particular: for environments without noise."""

    def choose(self, n, weights=None):
        return 0


def run_step(case, st):
    sp, cfg = SPECS[case['env']], SPECS[case['env']].cfgs[case['cfg']]
    x0 = tuple(case['s'])
    for a in sp.actions:
        outs, margin = sp.step(cfg, clean(sp, x0), a)
        if margin < 1e-6:
            st.outcome('too close to a threshold')
            continue
        seen = set()

        def go(ch):
            env = sp.make(cfg)
            s, act = np.array(x0), np.array(a)
            sc, ac = s.copy(), act.copy()
            with controlled_random(ch):
                o, info = env.reset(s)
                expect(same(o, clean(sp, x0), sp.angles), 'reset to', x0, 'starts in', np.asarray(o).tolist())
                o0 = np.array(o)
                if not isinstance(sp, Ship):
                    for i in sp.angles:
                        expect(abs(o0[i]) <= np.pi + 1e-9, 'reset to', x0, 'starts in', o0.tolist(), 'with an angle that is not normalized')
                expect(np.array_equal(s, sc), 'reset changed the array of the caller', sc.tolist(), 'to', s.tolist())
                s[...] = 77
                y, r, ab, inf = env.step(act)
            expect(np.array_equal(act, ac), 'step changed the action of the caller')
            expect(isinstance(info, dict) and isinstance(inf, dict), 'information dictionaries')
            expect(np.shape(y) == env.info.observation_space.shape, 'observation shape', np.shape(y))
            k = match(sp, (y, r, ab), outs)
            expect(k is not None, 'state', x0, 'action', a, 'gave', np.asarray(y).tolist(), float(np.squeeze(r)), bool(ab), 'expected one of',
                   [(np.asarray(q[0]).tolist(), q[1], q[2]) for q in outs[:4]])
            if sp.bounded and not ab:
                expect(np.all(np.asarray(y) >= env.info.observation_space.low - 1e-9) and np.all(np.asarray(y) <= env.info.observation_space.high + 1e-9),
                       'observation', np.asarray(y).tolist(), 'outside the declared space')
            if not isinstance(sp, Ship):
                for i in sp.angles:
                    expect(abs(y[i]) <= np.pi + 1e-9, 'angle not normalized', np.asarray(y).tolist())
            seen.add(k)
            st.state(case['env'], case['cfg'], tuple(np.round(np.asarray(y, dtype=float).reshape(-1), 4)))
            st.outcome(case['env'], bool(ab))
            return o0
        if sp.noisy or cfg.get('noise_reward'):
            for _ in explore(go):
                st.trace()
                st.step()
            keys = {(tuple(np.round(y, 7)), round(r, 6), ab) for y, r, ab in outs}
            got = {(tuple(np.round(outs[k][0], 7)), round(outs[k][1], 6), outs[k][2]) for k in seen}
            expect(got == keys, 'the noise reaches', len(got), 'of', len(keys), 'outcomes')
        else:
            go(Free())
            go(Free())
            st.trace()
            st.step()


def run_init(case, st):
    sp, cfg = SPECS[case['env']], SPECS[case['env']].cfgs[case['cfg']]
    env0 = sp.make(cfg)
    h, g, dt = sp.info(cfg)
    expect((env0.info.horizon, env0.info.gamma, env0.info.dt) == (h, g, dt), 'horizon, discount, time step',
           env0.info.horizon, env0.info.gamma, env0.info.dt, 'expected', (h, g, dt))
    sps = env0.info.observation_space
    expect(bool(np.all(sps.low <= sps.high)), 'the observation space is empty: low', sps.low.tolist(), 'high', sps.high.tolist())
    if hasattr(env0.info.action_space, 'low'):
        expect(bool(np.all(env0.info.action_space.low <= env0.info.action_space.high)), 'the action space is empty')
    outs = sp.inits(cfg)
    seen = set()

    def go(ch):
        env = sp.make(cfg)
        with controlled_random(ch):
            # used before: a reset does not depend on what happened
            for a in sp.actions[:case['used']]:
                env.reset(np.array(sp.states[3]))
                with controlled_random(Free()):
                    env.step(np.array(a))
            o, _ = env.reset()
        k = [i for i, y in enumerate(outs) if same(o, y, sp.angles)]
        expect(k, 'initial state', np.asarray(o).tolist(), 'expected one of', [y.tolist() for y in outs[:4]])
        expect(np.shape(o) == sps.shape, 'initial observation of shape', np.shape(o))
        seen.add(k[0])
        st.state(case['env'], tuple(np.round(np.asarray(o, dtype=float), 4)))
        # the start is not moved by what is done with the observation or by stepping
        first = np.array(o)
        o[...] = 55.
        with controlled_random(Free()):
            env.step(np.array(sp.actions[0]))
            if len(outs) == 1:
                o2, _ = env.reset()
                expect(same(o2, first, sp.angles), 'second reset starts in', np.asarray(o2).tolist(), 'after', first.tolist())
    for _ in explore(go):
        st.trace()
        st.step()
    expect(len(seen) == len(outs), 'reset reaches', len(seen), 'of', len(outs), 'initial states')


GRIDS = {'grid': lambda: GridWorld(2, 3, (1, 2)), 'hasselt': lambda: GridWorldVanHasselt(),
         'finite': lambda: FiniteMDP(np.array([[[.5, .5], [0., 1.]], [[1., 0.], [.25, .75]]]), np.arange(8.).reshape(2, 2, 2), np.array([.5, .5]))}


def run_grid(case, st):
    """Every state and action of a grid world of the given size, start and goal."""
    H, W, s0, g, kind = case['h'], case['w'], tuple(case['s']), tuple(case['g']), case['k']
    mk = lambda: (GridWorld if kind == 'grid' else GridWorldVanHasselt)(H, W, goal=g, start=s0)
    env = mk()
    expect(env.info.observation_space.n == H * W and env.info.action_space.n == 4, 'spaces')
    expect((env.info.gamma, env.info.horizon, env.info.dt) == ((.9, 100, .1) if kind == 'grid' else (.95, np.inf, .1)), 'discount, horizon, time step')
    o, _ = env.reset()
    expect(np.shape(o) == (1,) and int(o[0]) == s0[0] * W + s0[1], 'starts in', o, 'instead of', s0)
    for y, x in itertools.product(range(H), range(W)):
        for a, (dy, dx) in enumerate(((-1, 0), (1, 0), (0, -1), (0, 1))):
            ny, nx = y + dy, x + dx
            if not (0 <= ny < H and 0 <= nx < W):
                ny, nx = y, x
            if kind == 'grid':
                exp = {(ny * W + nx, 10. if (ny, nx) == g else 0., (ny, nx) == g): 1.}
            elif (y, x) == g:
                exp = {(y * W + x, 5., True): 1.}
            else:
                exp = {(ny * W + nx, -12., False): .5, (ny * W + nx, 10., False): .5}
            got = {}

            def go(ch):
                given, act = np.array([y * W + x]), np.array([a])
                with controlled_random(ch):
                    o, _ = env.reset(given)
                    expect(np.shape(o) == (1,) and int(o[0]) == y * W + x, 'reset to', (y, x), 'starts in', o)
                    n, r, ab, info = env.step(act)
                expect(int(given[0]) == y * W + x and int(act[0]) == a and int(o[0]) == y * W + x, 'an array given or returned was changed')
                expect(np.shape(n) == (1,) and isinstance(info, dict), 'kind of observation')
                return int(n[0]), float(r), bool(ab)
            for path, p, out in explore(go):
                got[out] = got.get(out, 0.) + p
                st.step()
            expect(set(got) == set(exp) and all(abs(got[k] - exp[k]) < 1e-9 for k in exp), 'cell', (y, x), 'action', a, 'gives', got, 'expected', exp)
            st.state(kind, H, W, g, y, x)
    o, _ = env.reset()
    expect(int(o[0]) == s0[0] * W + s0[1], 'later starts in', o, 'instead of', s0)
    st.outcome(kind, H, W)
    st.trace()


def grid_cases(tier):
    m = 3 if tier == 'quick' else 4
    for k in ('grid', 'hasselt'):
        for h, w in itertools.product(range(1, m + 2), repeat=2):
            if max(h, w) > m and min(h, w) != 2:
                continue
            cells = list(itertools.product(range(h), range(w)))
            for s, g in itertools.permutations(cells, 2):
                yield dict(h=h, w=w, s=s, g=g, k=k)


def acts_of(kind):
    if kind in SPECS:
        a = SPECS[kind].actions
        return [a[0], a[len(a) // 2], a[-1]]
    return [(0,), (1,), (3,)] if kind != 'finite' else [(0,), (1,)]


def run_history(case, st):
    """Two instances, one word of operations: nothing returned ever changes, nothing leaks, every step follows the model."""
    kind, cfgi = case['env'], case['cfg']
    sp = SPECS.get(kind)
    mk = (lambda: sp.make(sp.cfgs[cfgi])) if sp else GRIDS[kind]
    acts = acts_of(kind)
    e1, e2 = mk(), mk()
    lone = mk()
    kept = []

    def keep(*xs):
        for x in xs:
            kept.append((x, np.array(x)))

    class Det:
        def __init__(self):
            self.n = 0

        def choose(self, n, weights=None):
            self.n += 1
            return self.n % n

    d1, d2, dl = Det(), Det(), Det()
    with controlled_random(d1):
        o1, _ = e1.reset()
    with controlled_random(dl):
        ol, _ = lone.reset()
    with controlled_random(d2):
        o2, _ = e2.reset()
    keep(o1, o2)
    over = False
    x = np.array(o1, dtype=float)
    for op in case['w']:
        if op == 'r':
            with controlled_random(d1):
                o1, _ = e1.reset()
            with controlled_random(dl):
                ol, _ = lone.reset()
            over = False
            keep(o1)
            x = np.array(o1, dtype=float)
            expect(np.array_equal(o1, ol), 'reset beside another instance', np.asarray(o1).tolist(), 'alone', np.asarray(ol).tolist())
        elif op == 'o':
            with controlled_random(d2):
                o2, r2, ab2, _ = e2.step(np.array(acts[-1]))
                keep(o2)
                if ab2:
                    keep(e2.reset()[0])
        elif not over:
            a = acts[int(op)]
            with controlled_random(d1):
                o1, r, ab, _ = e1.step(np.array(a))
            with controlled_random(dl):
                ol, rl, abl, _ = lone.step(np.array(a))
            expect(np.array_equal(o1, ol) and np.array_equal(r, rl) and bool(ab) == bool(abl),
                   'an instance beside another gave', np.asarray(o1).tolist(), r, ab, 'alone', np.asarray(ol).tolist(), rl, abl)
            if sp:
                outs, mar = sp.step(sp.cfgs[cfgi], x, a)
                expect(mar < 1e-6 or match(sp, (o1, r, ab), outs) is not None, 'from', x.tolist(), 'action', a, 'gave', np.asarray(o1).tolist(), r, ab,
                       'expected one of', [(np.asarray(q[0]).tolist(), q[1], q[2]) for q in outs[:4]])
            keep(o1, r)
            x = np.array(o1, dtype=float)
            over = bool(ab)
        st.step()
        for v, c in kept:
            expect(np.array_equal(v, c), 'an observation or reward returned before was changed from', c.tolist(), 'to', np.asarray(v).tolist())
    st.state(kind, cfgi, tuple(np.round(x.reshape(-1), 4)))
    st.trace()


def step_cases(tier):
    for k, sp in SPECS.items():
        for i in range(len(sp.cfgs)):
            for s in sp.states:
                if k == 'ship' and not sp.inside(sp.cfgs[i], s):
                    continue
                if k[:3] == 'lqr' and max(map(abs, s)) > sp.cfgs[i].get('max_pos', np.inf):
                    continue
                yield dict(env=k, cfg=i, s=list(s))


def init_cases(tier):
    for k, sp in SPECS.items():
        for i in range(len(sp.cfgs)):
            for u in (0, 1, 2):
                yield dict(env=k, cfg=i, used=u)


def hist_cases(tier):
    n = 5 if tier == 'quick' else 6
    for k in list(SPECS) + list(GRIDS):
        ops = [str(i) for i in range(len(acts_of(k)))] + ['r', 'o']
        for i in range(len(SPECS[k].cfgs) if k in SPECS else 1):
            for w in itertools.product(ops, repeat=n):
                if w[0] != 'r':
                    yield dict(env=k, cfg=i, w=''.join(w))


def run_make(case, st):
    """Environments are made by name, with the arguments given after dots in front."""
    n = case['n']
    for cls in (CarOnHill, CartPole, GridWorld, InvertedPendulum, LQR, PuddleWorld, Segway, ShipSteering):
        cls.register()
    if n == 'names':
        names = Environment.list_registered()
        expect(len(names) == len(set(names)), 'names', names)
        for k in ('CarOnHill', 'CartPole', 'GridWorld', 'InvertedPendulum', 'LQR', 'PuddleWorld', 'Segway', 'ShipSteering'):
            expect(k in names, k, 'not registered')
    elif n == 'plain':
        for k, cls in (('CarOnHill', CarOnHill), ('CartPole', CartPole), ('Segway', Segway)):
            expect(type(Environment.make(k)) is cls, 'make', k)
        expect(Environment.make('CarOnHill', horizon=3, gamma=.2).info.horizon == 3, 'keyword arguments')
        expect(Environment.make('CarOnHill', 5).info.horizon == 5, 'positional arguments')
    elif n == 'dots':
        class Named(Environment):
            def __init__(self, *a, **k):
                self.a, self.k = a, k
        Named.register()
        for a, k in itertools.product(((), (1,), (1, 'x')), ({}, {'q': 2})):
            for dots in ((), ('u',), ('u', 'v')):
                e = Environment.make('.'.join(('Named',) + dots), *a, **k)
                expect(e.a == dots + a and e.k == k, 'make with', dots, a, k, 'called', e.a, e.k)
                st.step()

        class Gen(Named):
            @staticmethod
            def generate(*a, **k):
                e = Gen(*a, **k)
                e.g = True
                return e
        Gen.register()
        e = Environment.make('Gen.u', 3, z=1)
        expect(e.g and e.a == ('u', 3) and e.k == {'z': 1}, 'generate', e.a, e.k)
    st.state(n)
    st.trace()


FAMILIES = [
    Family('step', step_cases, run_step, 'nine environments, all their configurations, a lattice of states x actions (beyond the limits too), every '
           'lattice value of the noise', chunk=4),
    Family('grids', grid_cases, run_grid, 'grid worlds of up to 3 x 3 (4 x 4) and 2 x 4 (2 x 5) cells, all starts and goals, all cells and actions', chunk=16),
    Family('initial', init_cases, run_init, 'every initial draw, fresh and used instances, declared spaces and constants', chunk=1),
    Family('history', hist_cases, run_history, 'all words of length 5 (thorough 6) over three actions, reset and steps of a second instance', chunk=32),
    Family('make', lambda tier: [dict(n=k) for k in ('names', 'plain', 'dots')], run_make, 'environments by name', chunk=1),
]
