"""C35: rendering and recording show the current state, write every frame once and in order, and change nothing."""
import itertools
import os
import shutil
import tempfile

os.environ['SDL_VIDEODRIVER'] = 'dummy'
os.environ['SDL_AUDIODRIVER'] = 'dummy'
os.environ['SDL_NO_SIGNAL_HANDLERS'] = '1'

import cv2
import numpy as np
import pygame

import pybullet

from mushroom_rl.core import Agent, Core
from mushroom_rl.environments import puddle_world
from mushroom_rl.environments.pybullet import PyBullet, PyBulletObservationType
from mushroom_rl.environments import (CarOnHill, CartPole, GridWorld, GridWorldVanHasselt, InvertedPendulum, PuddleWorld, Segway,
                                      ShipSteering)
from mushroom_rl.policy import Policy
from mushroom_rl.utils import viewer as viewer_module
from mushroom_rl.utils.record import VideoRecorder
from mushroom_rl.utils.viewer import ImageViewer, Viewer
from mc.harness import Family, expect

ASSUMPTIONS = ['pygame draws on the dummy video driver of SDL; the waiting between frames is skipped',
               'the position of the segway along its track is integrated by its render method and only its tilt is checked',
               'the video codec is lossy: frames are compared by their mean colour']


class _Time:
    @staticmethod
    def sleep(s):
        pass


viewer_module.time = _Time


class _Norm:
    @staticmethod
    def pdf(x, loc=0., scale=1.):
        return np.exp(-.5 * ((x - loc) / scale) ** 2) / (scale * np.sqrt(2 * np.pi))


if hasattr(puddle_world, 'norm'):
    puddle_world.norm = _Norm           # the same density, without the overhead of scipy


def grid(cls, h, w, start, goal):
    return lambda: cls(h, w, goal=goal, start=start)


ENVS = {
    'pendulum': (lambda: InvertedPendulum(), [np.array([-2.]), np.array([3.])]),
    'pendulum_random': (lambda: InvertedPendulum(random_start=True, l=.5), [np.array([-9.]), np.array([0.])]),
    'cartpole': (lambda: CartPole(), [np.array([0]), np.array([2])]),
    'segway': (lambda: Segway(random_start=True), [np.array([-1.]), np.array([2.])]),
    'car': (lambda: CarOnHill(), [np.array([0]), np.array([1])]),
    'puddle': (lambda: PuddleWorld(noise_reward=.5), [np.array([1]), np.array([3])]),
    'ship': (lambda: ShipSteering(), [np.array([-.2]), np.array([.25])]),
    'ship_large': (lambda: ShipSteering(small=False), [np.array([-.2]), np.array([.25])]),
    'grid': (lambda: GridWorld(2, 3, goal=(1, 2), start=(1, 0)), [np.array([0]), np.array([3])]),
    'hasselt': (lambda: GridWorldVanHasselt(), [np.array([0]), np.array([3])]),
}


def play(env, acts, word, seed, rendering):
    """The observable history of a word; with rendering, also the recorded frames."""
    np.random.seed(seed)
    out, held, frames = [], [], []

    def keep(x):
        held.append((x, np.array(x).copy()))
        return np.array(x).copy()

    s, i = env.reset()
    out.append(keep(s))
    for k, op in enumerate(word):
        if op in 'ab':
            s, r, ab, i = env.step(acts['ab'.index(op)].copy())
            out.append((keep(s), float(r), bool(ab)))
        elif op == 'z':
            s, i = env.reset()
            out.append(keep(s))
        elif rendering:
            if op == 's':
                env.stop()
            else:
                f = env.render(record=op == 'R')
                if op == 'R':
                    expect(isinstance(f, np.ndarray) and f.dtype == np.uint8 and f.ndim == 3 and f.shape[2] == 3, 'frame', type(f), getattr(f, 'shape', None))
                    frames.append((k, f))
                else:
                    expect(f is None, 'a frame although none was asked for')
        for x, y in held:
            expect(np.array_equal(x, y), 'op', k, op, 'changed an observation already returned', x, y)
    return out, frames


def same(a, b):
    if isinstance(a, tuple):
        return np.array_equal(a[0], b[0]) and a[1:] == b[1:]
    return np.array_equal(a, b)


def run_trajectory(case, st):
    make, acts = ENVS[case['env']]
    word, seed = case['w'], 5
    plain, _ = play(make(), acts, word, seed, False)
    env = make()
    got, frames = play(env, acts, word, seed, True)
    st.step(2 * len(word))
    env.stop()
    expect(len(plain) == len(got) and all(same(a, b) for a, b in zip(plain, got)), 'rendering changed the trajectory', got, plain)
    if case['env'] != 'segway':
        for k, f in frames:
            # the same history never rendered before
            fresh = make()
            np.random.seed(seed)
            fresh.reset()
            for op in word[:k]:
                if op in 'ab':
                    fresh.step(acts['ab'.index(op)].copy())
                elif op == 'z':
                    fresh.reset()
            g = fresh.render(record=True)
            fresh.stop()
            st.step()
            expect(f.shape == g.shape and np.array_equal(f, g), 'the frame of op', k, 'differs from the first frame of an environment in this state: pixels',
                   int((f != g).any(-1).sum()) if f.shape == g.shape else (f.shape, g.shape))
            st.outcome(case['env'], int(f.astype(int).sum()))
    for x in got:
        st.state(case['env'], repr(x))
    st.trace()


def traj_cases(tier):
    for env in ENVS:
        # the background picture of the puddle world takes a second to compute
        n = (2 if env == 'puddle' else 4) if tier == 'quick' else (3 if env == 'puddle' else 5)
        for w in itertools.product('abrRsz', repeat=n):
            w = ''.join(w)
            if 'R' not in w and 'r' not in w:
                continue
            yield dict(env=env, w=w)


# ---------------------------------------------------------------- pictures
def pixel(frame, p, ew, eh):
    h, w = frame.shape[:2]
    x, y = int(p[0] * w / ew), int(h - p[1] * h / eh)
    return tuple(int(v) for v in frame[min(max(y, 0), h - 1), min(max(x, 0), w - 1)])


def shot(env, state):
    env.reset(np.array(state))
    f = env.render(record=True)
    env.stop()
    return f


def near(frame, color, p, ew, eh, tol):
    """the centroid of a colour is close to p"""
    ys, xs = np.nonzero((frame == np.array(color)).all(-1))
    expect(len(xs) > 0, 'colour', color, 'is not in the picture')
    h, w = frame.shape[:2]
    c = np.array([xs.mean() * ew / w, (h - ys.mean()) * eh / h])
    expect(np.abs(c - p).max() <= tol, 'colour', color, 'is at', c, 'instead of', p)


def run_picture(case, st):
    k = case['k']
    st.step()
    if k in ('grid', 'hasselt'):
        h, w, start, goal = case['h'], case['w'], tuple(case['start']), tuple(case['goal'])
        env = (GridWorld if k == 'grid' else GridWorldVanHasselt)(h, w, goal=goal, start=start)
        for s in range(h * w):
            f = shot(env, [s])
            expect(f.shape[1] == 500 and f.shape[0] == h * 500 // w, 'shape', f.shape)
            for r, c in itertools.product(range(h), range(w)):
                want = (0, 0, 255) if (r, c) == divmod(s, w) else (0, 255, 0) if (r, c) == goal else (255, 0, 0) if (r, c) == start else (0, 0, 0)
                got = pixel(f, (c + .5, h - (r + .5)), w, h)
                expect(got == want, 'state', s, 'cell', (r, c), 'is', got, 'expected', want)
                want = (0, 255, 0) if (r, c) == goal else (255, 0, 0) if (r, c) == start else (0, 0, 0)
                got = pixel(f, (c + .09, h - (r + .09)), w, h)
                expect(got == want, 'state', s, 'corner of cell', (r, c), 'is', got, 'expected', want)
            st.state(k, h, w, start, goal, s)
    elif k in ('pendulum', 'cartpole', 'segway'):
        th = case['th']
        l = {'pendulum': 2., 'cartpole': .5, 'segway': None}[k]
        env = InvertedPendulum(l=2.) if k == 'pendulum' else CartPole() if k == 'cartpole' else Segway()
        if k == 'segway':
            f = shot(env, [th, 0., 0.])
            l = env._viewer.size[0] and 1.
            d = lambda sc: (2.5 - sc * 2 * np.sin(th), 2.5 + sc * 2 * np.cos(th))
            expect(pixel(f, d(.5), 5, 5) != (0, 0, 0) or pixel(f, d(.55), 5, 5) != (0, 0, 0) or pixel(f, d(.45), 5, 5) != (0, 0, 0), 'no rod at the tilt', th)
            if abs(np.sin(th)) > .1:
                expect(pixel(f, (2.5 + np.sin(th), 2.5 + np.cos(th)), 5, 5) == (0, 0, 0), 'rod drawn at the opposite tilt', th)
        else:
            f = shot(env, [th, 0.])
            d = lambda a: (1.25 + np.sin(a), 1.25 + np.cos(a))
            expect(pixel(f, d(th), 2.5, 2.5) == (255, 255, 255), 'no bob at angle', th)
            for o in (1.3, 2.6, 3.9, 5.):
                expect(pixel(f, d(th + o), 2.5, 2.5) == (0, 0, 0), 'something drawn at angle', th + o, 'the state is', th)
        st.state(k, th)
    elif k == 'car':
        x = case['x']
        f = shot(CarOnHill(), [x, .5])
        xc = (x + 1) / 2
        hill = (x * x + x if x < 0 else x / np.sqrt(1 + 5 * x * x))
        near(f, (32, 193, 54), np.array([xc, (hill + 1) / 2]), 1, 1, .03)
        st.state(k, x)
    elif k == 'puddle':
        x, y = case['x'], case['y']
        env = PuddleWorld(goal=np.array([.7, .2]))
        f = shot(env, [x, y])
        near(f, (0, 255, 0), np.array([x, y]), 1, 1, .005)
        near(f, (255, 0, 0), np.array([.7, .2]), 1, 1, .01)
        dark, light = pixel(f, (.97, .5), 1, 1), pixel(f, (.32, .59), 1, 1)
        expect(sum(light) > sum(dark) + 100, 'the puddle is not visible', light, dark)
        st.state(k, x, y)
    else:
        x, y, th, small = case['x'], case['y'], case['th'], case['small']
        size = 150. if small else 1000.
        env = ShipSteering(small=small)
        f = shot(env, [x, y, th, 0.])
        near(f, (32, 193, 54), np.array([x, y]), size, size, 3.)
        c, s = np.cos(th), np.sin(th)
        ahead, behind = pixel(f, (x + 5.5 * c, y + 5.5 * s), size, size), pixel(f, (x - 6. * c, y - 6. * s), size, size)
        expect(ahead == (32, 193, 54) and behind != (32, 193, 54), 'heading', th, 'ahead', ahead, 'behind', behind)
        expect(pixel(f, (3. if small else 20., size / 2), size, size) == (66, 131, 237), 'the sea is', pixel(f, (3., size / 2), size, size))
        g = ((100, 120), (120, 100)) if small else ((350, 400), (450, 400))
        mid = (np.array(g[0]) + g[1]) / 2
        expect(any(pixel(f, mid + np.array(o) * size / 500, size, size) == (255, 255, 255) for o in itertools.product((-1, 0, 1), repeat=2)), 'no gate')
        st.state(k, x, y, th, small)
    st.trace()


def picture_cases(tier):
    m = 3 if tier == 'quick' else 4
    for k in ('grid', 'hasselt'):
        for h, w in itertools.product(range(1, m + 1), repeat=2):
            cells = list(itertools.product(range(h), range(w)))
            for start, goal in itertools.permutations(cells, 2):
                yield dict(k=k, h=h, w=w, start=start, goal=goal)
    for k in ('pendulum', 'cartpole', 'segway'):
        for th in np.linspace(-3., 3., 25 if tier == 'quick' else 97):
            if k == 'pendulum' or abs(th) < 1.5:
                yield dict(k=k, th=round(float(th), 4))
    for x in np.linspace(-.95, .95, 39):
        yield dict(k='car', x=round(float(x), 4))
    for x, y in itertools.product((.1, .25, .5, .9), repeat=2):
        yield dict(k='puddle', x=x, y=y)
    for small in (True, False):
        for x, y, th in itertools.product((20., 60.), (30., 70.), (-2.5, -1., 0., .5, 2.)):
            s = 1. if small else 6.
            yield dict(k='ship', x=x * s, y=y * s, th=th, small=small)


# ---------------------------------------------------------------- drawing primitives
EW, EH, W, H = 4., 2., 80, 60
BG = (10, 20, 30)


def tr(p):
    return (int(p[0] * W / EW), int(H - p[1] * H / EH))


def rot(p, c, a):
    return (np.cos(a) * p[0] - np.sin(a) * p[1] + c[0], np.sin(a) * p[0] + np.cos(a) * p[1] + c[1])


PRIM = {
    'line': lambda v, S: (v.line(S(1, .5), S(3, 1.5), (250, 0, 0), 2)),
    'square': lambda v, S: (v.square(S(1., 1.), .3, .6, (0, 250, 0))),
    'polygon': lambda v, S: (v.polygon(S(2.5, .7), -1., [[0., 0.], [.8, .1], [.2, .5]], (0, 0, 250))),
    'circle': lambda v, S: (v.circle(S(3., 1.), .3, (200, 200, 0))),
    'function': lambda v, S: (v.function(.5, 3.5, lambda x: x / 4 + .5, 10, 1, (0, 200, 200))),
    'torque+': lambda v, S: (v.torque_arrow(S(1.5, 1.), 2., 4., .8, (200, 0, 200))),
    'torque-': lambda v, S: (v.torque_arrow(S(1.5, 1.), -4., 4., .8, (200, 100, 200))),
    'torque0': lambda v, S: (v.torque_arrow(S(1.5, 1.), 0., 4., .8, (200, 0, 200))),
    'force+': lambda v, S: (v.force_arrow(S(2., 1.), S(1., 0.), 3., 4., .8, (150, 50, 0))),
    'force0': lambda v, S: (v.force_arrow(S(2., 1.), S(1., 0.), 0., 4., .8, (150, 50, 0))),
}


def paint(surf, name):
    d = pygame.draw
    if name == 'line':
        d.line(surf, (250, 0, 0), tr((1, .5)), tr((3, 1.5)), 2)
    elif name == 'square':
        d.polygon(surf, (0, 250, 0), [tr(rot(p, (1., 1.), .3)) for p in [(.3, .3), (.3, -.3), (-.3, -.3), (-.3, .3)]], 0)
    elif name == 'polygon':
        d.polygon(surf, (0, 0, 250), [tr(rot(p, (2.5, .7), -1.)) for p in [(0., 0.), (.8, .1), (.2, .5)]], 0)
    elif name == 'circle':
        d.circle(surf, (200, 200, 0), tr((3., 1.)), int(.3 * W / EW), 0)
    elif name == 'function':
        xs = np.linspace(.5, 3.5, 10)
        d.lines(surf, (0, 200, 200), False, [tr((x, x / 4 + .5)) for x in xs], 1)
    else:
        return False
    return True


def run_viewer(case, st):
    v = Viewer(EW, EH, W, H, background=BG)
    expect(v.size == (W, H), 'size')
    surf = pygame.Surface((W, H))
    surf.fill(BG)
    exact = True
    for op in case['w']:
        st.step()
        if op == 'display':
            v.screen
            v.display(0.)
            surf.fill(BG)
            exact = True
        elif op == 'close':
            v.close()
            surf.fill(BG)
            exact = True
        else:
            args = []

            def S(*x):
                a = np.array(x, dtype=float)
                args.append((a, a.copy()))
                return a
            PRIM[op](v, S)
            for a, b in args:
                expect(np.array_equal(a, b), op, 'overwrote its argument', b, '->', a)
            if op.endswith('0'):
                pass
            elif not paint(surf, op):
                exact = False
                f = v.get_frame()
                col = {'torque+': (200, 0, 200), 'torque-': (200, 100, 200), 'force+': (150, 50, 0)}[op]
                ys, xs = np.nonzero((f == np.array(col)).all(-1))
                if op.startswith('torque'):
                    r = (.4 if op[-1] == '+' else .8) * W / EW
                    c = tr((1.5, 1.))
                    expect(len(xs) > 0 and np.hypot(xs - c[0], ys - c[1]).max() <= r * 2.2 + 2, 'arc and arrow head around', c, 'radius', r)
                    expect(np.hypot(xs - c[0], ys - c[1]).max() >= r - 2, 'radius of the arc', r)
                else:
                    expect(len(xs) > 0 and xs.min() >= tr((2., 1.))[0] - 1 and xs.max() >= tr((2.5, 1.))[0], 'force arrow', xs.min(), xs.max())
        v.screen
        f = v.get_frame()
        expect(f.shape == (H, W, 3), 'shape of the frame', f.shape)
        if exact:
            want = pygame.surfarray.array3d(surf).swapaxes(0, 1)
            expect(np.array_equal(f, want), 'after', op, 'pixels differ:', int((f != want).any(-1).sum()))
        g = f.copy()
        f[:] = 7            # the frame belongs to the caller
        expect(np.array_equal(v.get_frame(), g), 'writing on a frame changed the screen')
        st.state(op, exact)
    v.close()
    st.trace()


def viewer_cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for w in itertools.product(list(PRIM) + ['display', 'close'], repeat=n):
            yield dict(w=list(w))


# ---------------------------------------------------------------- videos
COL = [(250, 20, 20), (20, 250, 20), (20, 20, 250)]


def read_video(path):
    c = cv2.VideoCapture(path)
    out = []
    while True:
        ok, f = c.read()
        if not ok:
            break
        out.append(tuple(f.reshape(-1, 3).mean(0)[::-1]))
    fps = c.get(cv2.CAP_PROP_FPS)
    c.release()
    return out, fps, (int(c.get(3)), int(c.get(4)))


def check_videos(d, videos, name, fps):
    names = [name + ('-%d' % i if i else '') + '.mp4' for i in range(len(videos))]
    have = sorted(os.listdir(d)) if os.path.isdir(d) else []
    expect(have == sorted(names), 'files', have, 'expected', names)
    for n, v in zip(names, videos):
        got, f, _ = read_video(os.path.join(d, n))
        expect(abs(f - fps) < .5, 'frames per second', f, 'expected', fps)
        expect(len(got) == len(v), n, 'has', len(got), 'frames, expected', len(v))
        for i, (g, w) in enumerate(zip(got, v)):
            expect(np.abs(np.array(g) - w).max() < 40, n, 'frame', i, 'is', g, 'expected', w)


def run_video(case, st):
    d = tempfile.mkdtemp(prefix='verif-c35-')
    name = case['name'] or 'recording'
    rec = VideoRecorder(path=d, tag='t', video_name=case['name'], fps=case['fps'])
    videos, cur = [], None
    for op in case['w']:
        st.step()
        if op == 's':
            rec.stop()
            cur = None
        else:
            if cur is None:
                cur = []
                videos.append(cur)
            h, w = case['size']
            f = np.full((h, w, 3), COL[int(op)], dtype=np.uint8)
            g = f.copy()
            rec(f)
            expect(np.array_equal(f, g), 'the recorder changed the frame')
            cur.append(COL[int(op)])
        st.state(len(videos), len(cur or []))
    rec.stop()
    check_videos(os.path.join(d, 't'), videos, name, case['fps'])
    st.trace()
    shutil.rmtree(d)


def video_cases(tier):
    n = 4 if tier == 'quick' else 6
    for name, fps, size in ((None, 10, (32, 48)), ('clip', 25, (64, 32))):
        for k in range(n + 1):
            for w in itertools.product('012s', repeat=k):
                yield dict(w=''.join(w), name=name, fps=fps, size=size)


class Walk(Policy):
    """Walks right, then down."""

    def __init__(self):
        super().__init__()
        self._add_save_attr()

    def draw_action(self, state, policy_state):
        return np.array([3 if state[0] % 3 < 2 else 1]), None

    def reset(self):
        return None


class Walker(Agent):
    def fit(self, dataset):
        pass


def run_core(case, st):
    """Core with the default recorder on a grid world: the green, red and blue of each frame tell the state."""
    d = tempfile.mkdtemp(prefix='verif-c35-')
    env = GridWorld(2, 3, goal=(1, 2), start=(0, 0), dt=case['dt'])
    env._viewer = Viewer(3, 2, 96, 64)
    args = dict(path=d, tag='t')
    if case['fps']:
        args['fps'] = case['fps']
    shown = []
    real = env.render

    def render(record=False):
        f = real(record)
        if record:
            shown.append(tuple(f.reshape(-1, 3).mean(0)))
        return f
    env.render = render
    core = Core(Walker(env.info, Walk()), env, record_dictionary=args)
    videos, steps = [], 0
    for op in case['w']:
        st.step()
        kind, n, rec = op
        del shown[:]
        kw = dict(n_steps=n) if kind in 'lE' else dict(n_episodes=n)
        if kind == 'l':
            core.learn(n_steps_per_fit=1, render=True, record=rec, quiet=True, **kw)
        else:
            core.evaluate(render=True, record=rec, quiet=True, **kw)
        want = n if kind in 'lE' else 3 * n
        expect(len(shown) == (want if rec else 0), 'frames', len(shown), 'expected', want if rec else 0)
        if rec and want:
            videos.append(list(shown))
        st.state(len(videos), kind, n)
    check_videos(os.path.join(d, 't'), videos, 'recording', case['fps'] or round(1 / case['dt']))
    st.trace()
    shutil.rmtree(d)


def core_cases(tier):
    ops = [(k, n, r) for k in 'lEe' for n in (1, 2) for r in (True, False)]
    for dt, fps in ((.1, None), (.05, None), (.1, 7)):
        for k in (1, 2) if tier == 'quick' else (1, 2, 3):
            for w in itertools.product(ops, repeat=k):
                yield dict(dt=dt, fps=fps, w=[list(o) for o in w])


# ---------------------------------------------------------------- plain images
def run_image(case, st):
    v = ImageViewer((8, 6), 0., headless=case['headless'])
    expect(tuple(v.size) == (8, 6), 'size')
    for k, op in enumerate(case['w']):
        st.step()
        if op == 'c':
            if not case['headless']:
                v.close()
            continue
        img = (np.arange(6 * 8 * 3).reshape(6, 8, 3) * (k + 1) % 251).astype(np.uint8)
        ref = img.copy()
        v.display(img)
        expect(np.array_equal(img, ref), 'the image was changed')
        if not case['headless']:
            got = pygame.surfarray.array3d(pygame.display.get_surface()).swapaxes(0, 1)
            expect(np.array_equal(got, ref), 'the screen does not show the image')
        st.state(k, op)
    if not case['headless']:
        v.close()
    st.trace()


def image_cases(tier):
    for h in (False, True):
        for n in range(1, 6 if tier == 'quick' else 8):
            for w in itertools.product('dc', repeat=n):
                yield dict(headless=h, w=''.join(w))


# ---------------------------------------------------------------- the camera of PyBullet
URDF = '''<?xml version="1.0"?><robot name="slide">
<link name="base"><inertial><mass value="1"/><inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial></link>
<link name="cart"><inertial><mass value="1"/><inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial>
<visual><geometry><box size=".3 .3 .3"/></geometry><material name="red"><color rgba="1 0 0 1"/></material></visual></link>
<joint name="j" type="prismatic"><parent link="base"/><child link="cart"/><axis xyz="1 0 0"/>
<limit effort="10" velocity="10" lower="-5" upper="5"/></joint></robot>'''


class Slide(PyBullet):
    def setup(self, state):
        if state is not None:
            self._client.resetJointState(self._model_map['slide'], 0, float(state[0]), float(state[1]))

    def reward(self, state, action, next_state, absorbing):
        return float(next_state[0])

    def is_absorbing(self, state):
        return abs(state[0]) > 1.5


def project(p, size, distance, origin, angles, fov, aspect):
    """Where the point p is on the picture, from the geometry of the camera alone."""
    _, pitch, yaw = np.deg2rad(angles)
    cz, sz, cx, sx = np.cos(yaw), np.sin(yaw), np.cos(pitch), np.sin(pitch)
    R = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    right, front, up = R.T
    v = np.array(p) - (np.array(origin) - distance * front)
    z = v @ front
    k = 1 / np.tan(np.deg2rad(fov) / 2)
    return (v @ right / z * k / aspect + 1) / 2 * size[0], (1 - v @ up / z * k) / 2 * size[1]


def run_bullet(case, st):
    d = tempfile.mkdtemp(prefix='verif-c35-')
    envs = []
    try:
        path = os.path.join(d, 'slide.urdf')
        with open(path, 'w') as f:
            f.write(URDF)
        cam = dict(size=tuple(case['size']), origin=tuple(case['origin']), angles=tuple(case['angles']), distance=case['dist'],
                   fov=case['fov'], aspect=case['aspect'])
        make = lambda **kw: Slide({path: dict(basePosition=case['base'], useFixedBase=True)}, [('j', pybullet.TORQUE_CONTROL)],
                                  [('j', PyBulletObservationType.JOINT_POS), ('j', PyBulletObservationType.JOINT_VEL)], .9, 20, **kw)
        env, ref = make(**cam), make()
        envs += [env, ref]
        start = np.array(case['start'])
        a, b = env.reset(start)[0], ref.reset(start)[0]
        expect(np.array_equal(a, b), 'start')
        w, h = case['size']
        for op in case['w']:
            st.step()
            if op in 'dr':
                frame = env.render(record=op == 'r')
                screen = pygame.surfarray.array3d(pygame.display.get_surface()).swapaxes(0, 1)
                expect(screen.shape == (h, w, 3), 'size of the screen', screen.shape)
                if op == 'r':
                    expect(frame is not None and np.shape(frame) == (h, w, 3), 'a recorded frame', np.shape(frame), 'is not as high and wide as asked',
                           (h, w))
                    expect(np.array_equal(np.asarray(frame), screen), 'the frame is not what the screen shows')
                else:
                    expect(frame is None, 'a frame although none was asked for')
                px = np.asarray(screen).astype(int)
                red = px[:, :, 0] > px[:, :, 1] + 50
                x, y = project(np.array(case['base']) + [float(a[0]), 0, 0], (w, h), case['dist'], case['origin'], case['angles'], case['fov'],
                               case['aspect'])
                rows, cols = np.nonzero(red)
                expect(len(rows) > 0, 'the cart is not on the picture; expected at', x, y)
                expect(abs(cols.mean() + .5 - x) < 1.5 and abs(rows.mean() + .5 - y) < 1.5 and np.ptp(cols) < w / 2 and np.ptp(rows) < h / 2,
                       'the cart is at column', cols.mean(), 'row', rows.mean(), 'expected', x, y)
                st.outcome(int(x), int(y))
            elif op == 'c':
                env.stop()
            else:
                u = np.array([8. if op == 'a' else -8.])
                ra, rb = env.step(u), ref.step(u)
                a, b = ra[0], rb[0]
                expect(np.array_equal(a, b) and ra[1:3] == rb[1:3], 'rendering changed the trajectory')
            st.state(case['size'], case['angles'], op, round(float(a[0]), 6))
        st.trace()
    finally:
        for e in envs:
            e.stop()
            e.client.disconnect()
        shutil.rmtree(d, ignore_errors=True)


def bullet_cases(tier):
    words = [''.join(w) for n in ((2, 3) if tier == 'quick' else (2, 3, 4, 5)) for w in itertools.product('adrc', repeat=n) if 'r' in w or 'd' in w]
    for size in ((60, 60), (60, 40), (40, 60)):
        for w in words:
            yield dict(size=size, w=w, base=(0., 0., 1.), start=(.4, 1.), origin=(0, 0, 1), angles=(0, -45, 60), dist=4, fov=60, aspect=size[0] / size[1])
        for base in ((0., 0., 1.), (.3, -.2, .8)):
            for q in (-.6, 0., .5):
                for origin in ((0, 0, 1), (.2, .1, .9)):
                    for angles in ((0, -45, 60), (0, -20, 10), (0, -60, -100)):
                        for dist in (3, 5):
                            for fov, aspect in ((60, 1), (50, size[0] / size[1])):
                                yield dict(size=size, w='r', base=base, start=(q, 0.), origin=origin, angles=angles, dist=dist, fov=fov, aspect=aspect)


FAMILIES = [
    Family('trajectory', traj_cases, run_trajectory, 'every word of 4 (5) actions, renders, recorded renders, stops and resets x 9 environments, of 2 (3) for the puddle world: same trajectory '
           'as without rendering; every frame as in an environment never rendered before', chunk=20),
    Family('picture', picture_cases, run_picture, 'all start/goal/state cells of grids up to 3x3 (4x4), lattices of angles and positions of the other environments', chunk=4),
    Family('viewer', viewer_cases, run_viewer, 'every word of up to 3 (4) drawing primitives, displays and closes, pixel by pixel', chunk=50),
    Family('video', video_cases, run_video, 'every word of up to 4 (6) frames and stops', chunk=20),
    Family('core', core_cases, run_core, 'every word of up to 2 (3) runs with and without recording, default recorder', chunk=5),
    Family('image', image_cases, run_image, 'every word of up to 5 (7) displays and closes', chunk=10),
    Family('bullet', bullet_cases, run_bullet, 'PyBullet camera: 3 shapes of the picture x every word of up to 3 (5) steps, displays, recorded renders and closes; 2 bases x '
           '3 positions x 2 origins x 3 angles x 2 distances x 2 fields of view: the cart is where the geometry of the camera puts it', chunk=20),
]
