"""C19: environments in worker processes against local ones: every word of masked calls, every order in which workers finish."""
import gc
import itertools
import multiprocessing
import os
import shutil
import tempfile
import time
import warnings

import numpy as np

from mushroom_rl.core import Environment, MDPInfo, MultiprocessEnvironment, VectorCore
from mushroom_rl.core.agent import Agent
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mc.harness import Family, expect

warnings.filterwarnings('ignore')
ASSUMPTIONS = ['worker processes are real; the order in which they finish is imposed by making each environment wait in turn',
               'environments are deterministic functions of the calls they receive, except in the family about random numbers',
               'environments do not fail']


def _child():
    """Let this process have worker processes, and let them end with it, whatever happens."""
    multiprocessing.process.current_process()._config['daemon'] = False
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)


def with_workers(run):
    def f(case, st):
        _child()
        run(case, st)
    return f


class Rec(Environment):
    """Its observation is a summary of everything it was asked since its last reset, its information of everything ever."""

    def __init__(self, dim=2, kind='box', delays=None, horizon=100, scale=1.):
        obs = Box(-1e6, 1e6, shape=(dim,)) if kind == 'box' else Discrete(50)
        act = Box(-10., 10., shape=(2,)) if kind == 'box' else Discrete(7)
        super().__init__(MDPInfo(obs, act, .5, horizon))
        _child()
        self.dim, self.kind, self.scale = (dim if kind == 'box' else 1), kind, scale
        self.calls = []
        self.x = 0.
        self.n = 0
        self.delays = delays
        self.turn = None
        self.seeded = None

    def _wait(self):
        if self.delays and self.n < len(self.delays):
            time.sleep(self.delays[self.n])

    def obs(self):
        o = np.array([self.x + 10 * i for i in range(self.dim)])
        return o if self.kind == 'box' else np.array([int(self.x) % 50])

    def reset(self, state=None):
        self.x = 1. if state is None else float(np.asarray(state)[0])
        self.n = 0
        self.calls.append(('reset', None if state is None else np.asarray(state).tolist()))
        return self.obs(), {'reset': self.x, 'calls': len(self.calls), 'seed': self.seeded}

    def step(self, action):
        a = np.asarray(action).tolist()
        self.calls.append(('step', a))
        self.n += 1
        self.x = self.x + self.scale * (a[0] + 2 * (a[1] if len(a) > 1 else 0))
        return self.obs(), self.x * .5, self.n >= 3, {'calls': len(self.calls), 'a': a}

    def render(self, record=False):
        self.calls.append(('render', record))
        return np.full((4, 4, 3), int(self.x) % 200, dtype=np.uint8) if record else None

    def seed(self, seed):
        self.seeded = seed

    def stop(self):
        self.calls.append(('stop',))


class Gen(Rec):
    @staticmethod
    def generate(k, scale=1.):
        return Gen(3, scale=scale * k)


class Slow(Rec):
    """The environment whose action says so waits before it answers."""

    def step(self, action):
        time.sleep(.012 * max(0., float(np.asarray(action)[1])))
        return super().step(action)


class Plain(Rec):
    def reset(self, state=None):
        return super().reset(state)[0], {}

    def step(self, action):
        return super().step(action)[:3] + ({},)


class Uneven(Plain):
    """Its episodes end once it has moved far enough: sooner the larger its actions are."""

    def step(self, action):
        o, r, ab, i = super().step(action)
        return o, r, self.x >= 4., i


class Rand(Rec):
    def reset(self, state=None):
        self.x = np.random.uniform()
        return self.obs(), {}

    def step(self, action):
        self.x = np.random.uniform()
        return self.obs(), 0., False, {}

    def seed(self, seed):
        np.random.seed(seed)


def eq(a, b):
    return np.shape(a) == np.shape(b) and bool(np.array_equal(np.asarray(a), np.asarray(b)))


def masks(n):
    return [m for m in itertools.product((0, 1), repeat=n)]


def run_words(case, st):
    n, kind = case['n'], case['kind']
    if kind == 'gen':
        env = MultiprocessEnvironment.generate(Gen, 2, n_envs=n, scale=.5)
        loc = [Gen.generate(2, scale=.5) for _ in range(n)]
    else:
        env = MultiprocessEnvironment(Rec, 2, n_envs=n, kind=kind)
        loc = [Rec(2, kind=kind) for _ in range(n)]
    try:
        expect(env.number == n, 'number of environments', env.number)
        expect(env.info.observation_space.shape == loc[0].info.observation_space.shape and env.info.gamma == .5, 'information')
        kept = []
        last = [None] * n
        adim = 2 if kind != 'disc' else 1
        for k, (op, m) in enumerate(case['w']):
            mask = np.array(m, dtype=bool)
            act = np.array([[(3 * i + k) % 5 + 1., (i + 2 * k) % 4][:adim] for i in range(n)])
            act = act if kind != 'disc' else act.astype(int)
            given = act.copy()
            if op in 'fv':
                frames = env.render_all(mask, record=op == 'v')
                want = [loc[i].render(op == 'v') if m[i] else None for i in range(n)]
                for i in range(n):
                    got = frames[i] if i < len(frames) else None
                    expect((got is None) == (want[i] is None) and (got is None or eq(got, want[i])), 'call', k, 'frame of environment', i, 'expected',
                           None if want[i] is None else want[i][0, 0].tolist(), 'got', None if got is None else np.asarray(got)[0, 0].tolist())
                st.step()
                continue
            if op == 's':
                obs, rew, ab, inf = env.step_all(mask, act)
                expect(eq(act, given), 'the actions of the caller were changed')
                exp = [loc[i].step(act[i]) if m[i] else None for i in range(n)]
            else:
                init = np.array([[(7. + i + k) * ((i + k) % 2), 0.][:loc[0].dim] + [0.] * (loc[0].dim - 2) for i in range(n)]) if op == 'R' else None
                obs, inf = env.reset_all(mask, init)
                exp = [loc[i].reset(None if init is None else init[i]) if m[i] else None for i in range(n)]
            expect(np.shape(obs) == (n,) + loc[0].info.observation_space.shape, 'observations of shape', np.shape(obs))
            expect(len(inf) == n, 'information of', len(inf), 'environments')
            for i in range(n):
                if m[i]:
                    expect(eq(obs[i], exp[i][0]), 'call', k, 'environment', i, 'observation', np.asarray(obs[i]).tolist(), 'expected', exp[i][0].tolist())
                    expect(inf[i] == exp[i][-1], 'call', k, 'environment', i, 'information', inf[i], 'expected', exp[i][-1])
                    last[i] = exp[i][0]
                    if op == 's':
                        expect(float(rew[i]) == exp[i][1] and bool(ab[i]) == exp[i][2], 'call', k, 'environment', i, 'reward', rew[i], 'absorbing', ab[i],
                               'expected', exp[i][1], exp[i][2])
                else:
                    expect(not inf[i], 'call', k, 'inactive environment', i, 'gave information', inf[i])
                    if last[i] is not None:
                        expect(eq(obs[i], last[i]), 'call', k, 'inactive environment', i, 'observation', np.asarray(obs[i]).tolist(), 'was', last[i].tolist())
                    if op == 's':
                        expect(not ab[i], 'call', k, 'inactive environment', i, 'is absorbing')
            xs = [obs] + ([rew, ab] if op == 's' else [])
            for x in xs:
                # the rewards of inactive environments mean nothing
                kept.append((x, np.array(x), np.array(m, dtype=bool)))
            for x, c, mk in kept:
                expect(eq(np.asarray(x)[mk], c[mk]), 'something returned before was changed')
            st.step()
            st.state(n, kind, tuple(tuple(e.obs().tolist()) for e in loc))
    finally:
        del env
        gc.collect()
    st.trace()


def run_order(case, st):
    """The workers finish in every order: answers belong to whom they were asked from."""
    n = 3
    env = MultiprocessEnvironment(Slow, 2, n_envs=n)
    loc = [Rec(2) for _ in range(n)]
    try:
        env.reset_all(np.ones(n, dtype=bool))
        for e in loc:
            e.reset()
        for k, (p, m) in enumerate(case['p']):
            mask = np.array(m, dtype=bool)
            act = np.array([[float(i + 1 + k), float(p[i])] for i in range(n)])
            obs, rew, ab, inf = env.step_all(mask, act)
            for i in range(n):
                if m[i]:
                    o, r, a, f = loc[i].step(act[i])
                    expect(eq(obs[i], o) and float(rew[i]) == r and bool(ab[i]) == a and inf[i] == f, 'finishing order', p, 'environment', i, 'gave',
                           obs[i].tolist(), rew[i], ab[i], inf[i], 'expected', o.tolist(), r, a, f)
            st.step()
            st.state(tuple(p), tuple(m), k)
    finally:
        del env
        gc.collect()
    st.trace()


def run_default(case, st):
    """The one-environment interface uses the selected environment only."""
    n = case['n']
    env = MultiprocessEnvironment(Rec, 2, n_envs=n)
    loc = [Rec(2) for _ in range(n)]
    try:
        env.reset_all(np.ones(n, dtype=bool))
        for e in loc:
            e.reset()
        cur = 0
        for k, op in enumerate(case['w']):
            act = np.array([[float(i + k), 1.] for i in range(n)])
            if op[0] == 'd':
                cur = int(op[1])
                env.set_default_env(cur)
                continue
            if op[0] == 's':
                obs, rew, ab, inf = env.step(act)
                o, r, a, f = loc[cur].step(act[cur])
                expect(eq(obs[cur], o) and float(rew[cur]) == r and bool(ab[cur]) == a and inf[cur] == f, 'default environment', cur, 'gave',
                       obs[cur].tolist(), rew[cur], 'expected', o.tolist(), r)
            elif op[0] == 'r':
                obs, inf = env.reset()
                o, f = loc[cur].reset()
                expect(eq(obs[cur], o) and inf[cur] == f, 'default environment', cur, 'reset to', obs[cur].tolist(), 'expected', o.tolist())
            else:
                fr = env.render(record=True)
                want = loc[cur].render(True)
                got = fr[cur] if len(fr) == n else fr[0]
                expect(eq(got, want), 'default environment', cur, 'frame', np.asarray(got)[0, 0].tolist(), 'expected', want[0, 0].tolist())
                continue
            for i in range(n):
                expect(eq(obs[i], loc[i].obs()), 'environment', i, 'after a call to', cur)
            st.step()
        st.state(tuple(case['w']))
    finally:
        del env
        gc.collect()
    st.trace()


def run_life(case, st):
    """Seeds, stop, and the end of the workers."""
    n = case['n']
    before = set(p.pid for p in multiprocessing.active_children())
    env = MultiprocessEnvironment(Rec, 2, n_envs=n)
    started = set(p.pid for p in multiprocessing.active_children()) - before
    expect(len(started) == n, len(started), 'workers for', n, 'environments')
    full = np.ones(n, dtype=bool)
    seen = []
    for op in case['w']:
        if op == 'e':
            env.seed(case['seed'])
        elif op == 'p':
            env.stop()
        elif op == 'r':
            _, inf = env.reset_all(full)
            seen = [i['seed'] for i in inf]
        st.step()
    if 'e' in case['w']:
        _, inf = env.reset_all(full)
        seen = [i['seed'] for i in inf]
        expect(all(isinstance(s, int) for s in seen), 'seeds given to the environments', seen)
        expect(len(set(seen)) == n, 'environments were given the same seed', seen)
        other = MultiprocessEnvironment(Rec, 2, n_envs=n)
        other.seed(case['seed'])
        _, i2 = other.reset_all(full)
        expect([i['seed'] for i in i2] == seen, 'the same seed gave', seen, 'and then', [i['seed'] for i in i2])
        other.seed(case['seed'] + 1000)
        _, i3 = other.reset_all(full)
        expect(not set(i['seed'] for i in i3) & set(seen), 'another seed gave some of the same seeds', seen)
        del other
        gc.collect()
    obs, _ = env.reset_all(full)
    expect(np.shape(obs) == (n, 2), 'usable after', case['w'])
    del env
    gc.collect()
    t = time.time()
    while time.time() - t < 5 and any(alive(p) for p in started):
        time.sleep(.01)
    left = [p for p in started if alive(p)]
    expect(not left, len(left), 'workers left behind')
    st.state(case['w'], n)
    st.trace()


def alive(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().split(')')[-1].split()[0] != 'Z'
    except OSError:
        return False


def run_random(case, st):
    """Environments in different workers do not draw the same random numbers; the parent's seed decides them."""
    n = case['n']

    def play(seed):
        np.random.seed(seed)
        env = MultiprocessEnvironment(Rand, 2, n_envs=n)
        full = np.ones(n, dtype=bool)
        if case['seed'] is not None:
            env.seed(case['seed'])
        out = [env.reset_all(full)[0][:, 0]]
        for _ in range(2):
            out.append(env.step_all(full, np.zeros((n, 2)))[0][:, 0])
        del env
        gc.collect()
        st.step()
        return np.array(out).T
    keep = np.random.get_state()
    try:
        a, b, c = play(case['p']), play(case['p']), play(case['p'] + 1)
    finally:
        np.random.set_state(keep)
    expect(len({tuple(r) for r in a}) == n, 'environments in different workers draw the same numbers', a.tolist())
    expect(np.array_equal(a, b), 'the same seed gave different numbers')
    if case['seed'] is None:
        expect(not np.array_equal(a, c), 'the seed of the main process makes no difference')
    st.state(n, case['p'], case['seed'])
    st.trace()


UP = [1]


def ACT(i, n):
    return 1. + (i if UP[0] > 0 else n - 1 - i)


class Zero(Policy):
    def __init__(self):
        super().__init__()

    def draw_action(self, state, policy_state=None):
        return np.array([[ACT(i, len(state)), 0.] for i in range(len(state))]), None

    def reset(self):
        return None


class Recorder:
    all = []

    def __init__(self, fps=None, **kw):
        self.frames, self.stops = [], 0
        Recorder.all.append(self)

    def __call__(self, frame):
        self.frames.append(int(np.asarray(frame)[0, 0, 0]))

    def stop(self):
        self.stops += 1


class Quiet(Agent):
    def __init__(self, info, pol):
        super().__init__(info, pol, is_episodic=False)

    def fit(self, dataset):
        pass


def run_record(case, st):
    """Every environment of a vectorized run is recorded by its own recorder, with its own frames."""
    n = case['n']
    env = MultiprocessEnvironment(Uneven if case.get('u') else Plain, 2, n_envs=n, horizon=case['h'])
    d = tempfile.mkdtemp(prefix='c19')
    try:
        UP[0] = case.get('up', 1)
        Recorder.all = []
        rd = dict(recorder_class=Recorder) if case['rec'] == 'stub' else dict(path=d, tag='t', fps=10)
        core = VectorCore(Quiet(env.info, Zero()), env, record_dictionary=rd)
        core.evaluate(n_episodes=case['e'], render=True, record=True, quiet=True)
        # reference: environment i adds 1 + i per step to a start of 1
        per = [[] for _ in range(n)]
        left = case['e']
        active = [i < case['e'] for i in range(n)]
        started = sum(active)
        loc = [(Uneven if case.get('u') else Rec)(2, horizon=case['h']) for _ in range(n)]
        steps = [0] * n
        for i in range(n):
            loc[i].reset()
        while any(active):
            for i in range(n):
                if active[i]:
                    _, _, ab, _ = loc[i].step(np.array([ACT(i, n), 0.]))
                    per[i].append(int(loc[i].x) % 200)
                    steps[i] += 1
                    if ab or steps[i] >= case['h']:
                        steps[i] = 0
                        left -= 1
                        loc[i].reset()
                        active[i] = None
            # as many environments go on as there are episodes still to be completed
            run = sum(1 for x in active if x)
            for i in range(n):
                if active[i] is None:
                    active[i] = run < left
                    run += active[i]
        if case['rec'] == 'stub':
            expect(len(Recorder.all) == n, len(Recorder.all), 'recorders')
            got = [r.frames for r in Recorder.all]
            expect(got == per, 'frames of the recordings', got, 'expected', per)
        else:
            import cv2
            files = [os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs]
            expect(len(files) == sum(1 for p in per if p), len(files), 'video files for', sum(1 for p in per if p), 'recorded environments')
            counts = []
            for f in files:
                v = cv2.VideoCapture(f)
                k = 0
                while v.read()[0]:
                    k += 1
                counts.append(k)
            expect(sorted(counts) == sorted(len(p) for p in per if p), 'frames of the videos', sorted(counts), 'expected', sorted(len(p) for p in per if p))
        st.step()
        st.state(n, case['e'], case['h'], tuple(map(tuple, per)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        del env
        gc.collect()
    st.trace()


def word_cases(tier):
    th = tier != 'quick'
    for n, depth, kinds in ((2, 3, ('box',)), (3, 2, ('box', 'disc', 'gen')), (2, 2, ('disc', 'gen'))) + (((4, 2, ('box',)), (3, 3, ('box',))) if th else ()):
        ops = [(o, m) for m in masks(n) if any(m) for o in ('s', 'r', 'R')] + [('v', m) for m in masks(n) if any(m)] + [('f', (1,) * n)]
        for kind in kinds:
            for w in itertools.product(ops, repeat=depth):
                if n == 3 and depth == 3 and any(x[0] in 'Rvf' for x in w[1:]):
                    continue
                if kind == 'disc' and any(x[0] == 'R' for x in w) and n == 3:
                    continue
                # an environment is reset before it is used
                yield dict(n=n, kind=kind, w=[['r', [1] * n]] + [[o, list(m)] for o, m in w])
    # environments brought to life one after the other
    for n in (2, 3):
        for p in itertools.permutations(range(n)):
            w = []
            live = [0] * n
            for i in p:
                w.append(['r', [int(j == i) for j in range(n)]])
                live[i] = 1
                w.append(['s', list(live)])
            yield dict(n=n, kind='box', w=w)


def order_cases(tier):
    ps = list(itertools.permutations(range(3)))
    ms = [(1, 1, 1), (1, 0, 1), (0, 1, 1)]
    for p, q in itertools.product(ps, repeat=2):
        for m in ms if tier != 'quick' else ms[:1]:
            yield dict(p=[[list(p), [1, 1, 1]], [list(q), list(m)], [list(p), [1, 1, 1]]])
    if tier == 'quick':
        for p in ps:
            for m in ms[1:]:
                yield dict(p=[[list(p), list(m)], [list(p), [1, 1, 1]]])


def default_cases(tier):
    for w in itertools.product(('d0', 'd1', 's', 'r', 'f'), repeat=4):
        if 's' in w or 'f' in w:
            yield dict(n=2, w=list(w))


def life_cases(tier):
    for n in (2, 3):
        for k in range(3):
            for w in itertools.product('epr', repeat=k):
                for s in (0, 7):
                    yield dict(n=n, w=''.join(w), seed=s)


FAMILIES = [
    Family('words', word_cases, run_words, 'all words of 3 masked calls (2 environments) and 2 calls (3; thorough 3 calls, 4 environments): steps, resets, renderings, '
           'resets to given states; continuous, discrete and generated environments', chunk=16),
    Family('finishing_order', order_cases, run_order, 'every order of finishing of 3 workers in two consecutive steps', chunk=4),
    Family('default_environment', default_cases, run_default, 'all words of 4 calls of the one-environment interface', chunk=16),
    Family('life', life_cases, run_life, 'seed, stop, reset in any order up to 2 calls; workers end', chunk=4),
    Family('random', lambda tier: [dict(n=n, p=p, seed=s) for n in (2, 3) for p in (0, 1, 5) for s in (None, 0, 3)], run_random,
           'seeds of the main process x explicit seeds', chunk=2),
    Family('recording', lambda tier: [dict(n=n, e=e, h=h, rec=r) for n in (2, 3) for e in (1, 2, 3, 4) for h in (1, 2, 100) for r in ('stub', 'video')]
           + [dict(n=n, e=e, h=h, rec='stub', u=1, up=up) for n in (2, 3) for e in range(1, 7) for h in (2, 100) for up in (1, -1)],
           run_record, 'vectorized recordings: environments, episodes, horizons', chunk=2),
]

for _f in FAMILIES:
    _f.run = with_workers(_f.run)
