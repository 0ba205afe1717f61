"""C01: the sequential interaction loop."""
import itertools

import numpy as np

from mushroom_rl.core import Core
from mc.harness import Family, expect
from mc.stubs import *

ASSUMPTIONS = ['the environment, policy and agent are scripted stubs; the loop, the agent base class, the dataset and '
               'the preprocessing chain are the real ones',
               'recording and rendering are observed through stub recorders']


class Stop(Exception):
    pass


class Model:
    """The interaction protocol, written down as a plain simulation."""

    def __init__(self, script, horizon, stateful, episodic, sarsa, pre, n_cb, apre=()):
        self.apre = apre
        self.script, self.h = script, horizon
        self.stateful, self.episodic, self.sarsa, self.pre, self.n_cb = stateful, episodic, sarsa, pre, n_cb
        self.t = 0
        self.c = 0
        self.n = 100
        self.na = 500
        self.r = 0
        self.theta = 0

    def prep(self, x, log):
        for tag, (a, b) in enumerate(self.pre):
            log.append(('pre_update', tag, [float(x)]))
            log.append(('pre_call', tag, [float(x)]))
            x = a * x + b
        return float(x)

    def run(self, kind, n_steps=None, n_episodes=None, init=None, per_steps=None, per_eps=None, render=False,
            record=False):
        log, data, thetas, infos = [], [], [], []
        steps = eps = 0
        fsteps = feps = 0
        if init is not None:
            n_episodes = len(init)
        last = True
        next_action = None
        frames = []

        def ds():
            cols = list(zip(*data)) if data else [()] * 8
            out = [[float(x) for x in cols[0]], [float(x) for x in cols[1]], [float(x) for x in cols[2]],
                   [float(x) for x in cols[3]], list(cols[4]), list(cols[5])]
            if self.stateful:
                out += [[float(x) for x in cols[6]], [float(x) for x in cols[7]]]
            if self.episodic:
                out.append([float(x) for x in thetas])
            out.append(len(data))
            return out

        while (steps < n_steps) if n_steps is not None else (eps < n_episodes):
            if last:
                i0 = float(init[eps]) if init is not None else None
                self.c += 1
                log.append(('reset', i0))
                raw = i0 if i0 is not None else float(self.c)
                log.append(('episode_start', raw, self.c))
                self.r += 1
                log.append(('policy_reset',))
                ps = float(-self.r) if self.stateful else None
                if self.episodic:
                    self.theta += 1
                    thetas.append(self.theta)
                state = self.prep(raw, log)
                next_action = None
                ep_steps = 0
            if next_action is None:
                seen = state
                for a, b in self.apre:
                    seen = a * seen + b
                log.append(('draw', float(seen), ps))
                self.n += 1
                action = float(self.n)
                nps = ps + 1000 if self.stateful else None
            else:
                action, next_action, nps = next_action, None, None
            self.c += 1
            absorbing = bool(self.script[self.t])
            self.t += 1
            log.append(('step', action))
            ep_steps += 1
            steps += 1
            fsteps += 1
            if render:
                log.append(('render', record))
                if record:
                    frames.append(self.c)
            last = absorbing or ep_steps >= self.h
            nstate = self.prep(self.c, log)
            sample = (state, action, self.c / 2, nstate, absorbing, last, ps, nps)
            log.append(('cb_step', sample))
            data.append(sample)
            infos.append(self.c)
            state, ps = nstate, nps
            if last:
                eps += 1
                feps += 1
            if kind == 'learn':
                if (fsteps >= per_steps) if per_steps is not None else (feps >= per_eps):
                    log.append(('fit', ds()))
                    if self.sarsa:
                        self.na += 1
                        next_action = float(self.na)
                    for i in range(self.n_cb):
                        log.append(('cb_fit', i, ds()))
                    data, thetas, infos = [], [], []
                    fsteps = feps = 0
        return log, ds(), infos, frames


class AgentAffine:
    """A preprocessor of the agent: applied to the states the policy is asked with, in the arrays of the agent."""

    def __init__(self, a, b, backend):
        self.a, self.b, self.backend = a, b, backend

    def __call__(self, x):
        expect(isinstance(x, torch.Tensor) == (self.backend == 'torch'), 'an agent preprocessor is given a', type(x))
        return self.a * x + self.b

    def update(self, x):
        expect(False, 'agent preprocessors are updated by the learner, not by the loop')


class Recorder:
    made = []

    def __init__(self, fps=None, mark=None):
        self.frames, self.stops, self.fps, self.mark = [], 0, fps, mark
        Recorder.made.append(self)

    def __call__(self, frame):
        self.frames.append(frame[1])

    def stop(self):
        self.stops += 1


def order_free(log):
    """Preprocessing reads only the observation: its log is compared apart from the rest, stops only as a count."""
    pre = [e for e in log if e[0].startswith('pre_')]
    rest = [e for e in log if not e[0].startswith('pre_') and e[0] not in ('agent_stop', 'env_stop')]
    return pre, rest


def run_case(case, st):
    script, h, runs, cfg = case['script'], case['h'], case['runs'], case['cfg']
    h = float('inf') if h is None else h
    pre = [tuple(p) for p in cfg.get('pre', [])]
    log = []
    env = ScriptedEnv(script, h, cfg.get('env', 'numpy'), log)
    agent = ScriptedAgent(env.info, cfg.get('stateful', False), cfg.get('episodic', False), cfg.get('agent', 'numpy'),
                          cfg.get('sarsa', False), log)
    for tag, (a, b) in enumerate(pre):
        agent.add_core_preprocessor(Affine(a, b, tag, log))
    for a, b in cfg.get('apre', []):
        agent.add_agent_preprocessor(AgentAffine(a, b, agent.info.backend))
    n_cb = cfg.get('cb', 1)
    kept = []

    def cb_step(sample):
        s = tuple(val(x) for x in sample[:4]) + (bool(sample[4]), bool(sample[5])) + tuple(
            val(x) for x in sample[6:])
        kept.append((sample, s))
        log.append(('cb_step', s))

    def mk(i):
        return lambda d: log.append(('cb_fit', i, dump_dataset(d, agent.info.is_stateful, agent.info.is_episodic)))

    Recorder.made = []
    kw = {'callback_step': cb_step} if cfg.get('cb_step', True) else {}
    core = Core(agent, env, callbacks_fit=[mk(i) for i in range(n_cb)],
                record_dictionary={'recorder_class': Recorder, 'mark': 7}, **kw)
    model = Model(script, h, agent.info.is_stateful, agent.info.is_episodic, cfg.get('sarsa', False), pre, n_cb,
                  cfg.get('apre', ()))
    rec_stops = 0
    for run in runs:
        del log[:]
        kind = run['kind']
        args = {k: run[k] for k in ('n_steps', 'n_episodes') if k in run}
        init = run.get('init')
        render, record = run.get('render', False), run.get('record', False)
        frames0 = len(Recorder.made[0].frames)
        if kind == 'learn':
            per = {'n_steps_per_fit': run['fs']} if 'fs' in run else {'n_episodes_per_fit': run['fe']}
            core.learn(quiet=True, render=render, record=record, **args, **per)
            d = None
        else:
            if init is not None:
                args['initial_states'] = np.array(init, dtype=float).reshape(-1, 1)
                if cfg.get('env') == 'torch':
                    args['initial_states'] = torch.as_tensor(args['initial_states'])
            d = core.evaluate(quiet=True, render=render, record=record, **args)
        mlog, mds, minfos, mframes = model.run(kind, run.get('n_steps'), run.get('n_episodes'), init, run.get('fs'),
                                              run.get('fe'), render, record)
        if not cfg.get('cb_step', True):
            mlog = [e for e in mlog if e[0] != 'cb_step']
        pre_r, rest_r = order_free(log)
        pre_m, rest_m = order_free(mlog)
        for i, (x, y) in enumerate(itertools.zip_longest(rest_r, rest_m)):
            expect(x == y, 'event', i, 'of run', run, ': real', x, 'expected', y)
        expect(pre_r == pre_m, 'preprocessing differs', pre_r, pre_m)
        expect(sum(1 for e in log if e[0] == 'agent_stop') == 1, 'agent.stop not called exactly once')
        expect(sum(1 for e in log if e[0] == 'env_stop') == 1, 'env.stop not called exactly once')
        if d is not None:
            got = dump_dataset(d, agent.info.is_stateful, agent.info.is_episodic)
            expect(got == mds, 'returned dataset', got, 'expected', mds)
            expect(vals(d.info['k']) == [float(x) for x in minfos], 'step info misaligned', d.info['k'], minfos)
        if record:
            rec_stops += 1
        expect(Recorder.made[0].frames[frames0:] == mframes, 'recorded frames', Recorder.made[0].frames, mframes)
        expect(Recorder.made[0].stops == rec_stops, 'recorder stops')
        expect(env.t == model.t, 'number of environment steps', env.t, model.t)
        st.step(sum(1 for e in log if e[0] in ('reset', 'step', 'fit')))
        for k in range(len(rest_m)):
            if rest_m[k][0] in ('cb_step', 'fit', 'reset'):
                st.state(case['h'], str(cfg), str(run), str(rest_m[k]))
        st.outcome(str(rest_m))
    expect(len(Recorder.made) == 1 and Recorder.made[0].fps == int(1 / env.info.dt) and Recorder.made[0].mark == 7,
           'recorder construction')
    for sample, s in kept:
        now = tuple(val(x) for x in sample[:4]) + (bool(sample[4]), bool(sample[5])) + tuple(
            val(x) for x in sample[6:])
        expect(now == s, 'a sample handed to the step callback changed afterwards', s, now)
    st.trace()


def scripts(n):
    return [list(b) for b in itertools.product([0, 1], repeat=n)]


PRE = [[2, 1], [3, 5]]
BASE = {'pre': PRE, 'cb': 2}


def single_cases(tier):
    """One run from a fresh core, every termination script."""
    T = 6 if tier == 'quick' else 9
    hs = [1, 2, 3, None] if tier == 'quick' else [1, 2, 3, 4, 5, None]
    for h in hs:
        for n in range(1, T + 1):
            for s in scripts(n):
                for fs in range(1, min(n, 4) + 1):
                    yield {'script': s, 'h': h, 'cfg': BASE, 'runs': [{'kind': 'learn', 'n_steps': n, 'fs': fs}]}
                yield {'script': s, 'h': h, 'cfg': BASE, 'runs': [{'kind': 'evaluate', 'n_steps': n}]}
        if h is None:
            continue
        E = 3 if tier == 'quick' else 4
        for n in range(1, E + 1):
            if h * n > (9 if tier == 'quick' else 12):
                continue
            for s in scripts(h * n):
                for fe in range(1, n + 2):
                    yield {'script': s, 'h': h, 'cfg': dict(BASE, episodic=True),
                           'runs': [{'kind': 'learn', 'n_episodes': n, 'fe': fe}]}
                for fs in (1, 2, 3):
                    yield {'script': s, 'h': h, 'cfg': BASE, 'runs': [{'kind': 'learn', 'n_episodes': n, 'fs': fs}]}
                yield {'script': s, 'h': h, 'cfg': BASE, 'runs': [{'kind': 'evaluate', 'n_episodes': n}]}
                yield {'script': s, 'h': h, 'cfg': BASE,
                       'runs': [{'kind': 'evaluate', 'init': [50 + i for i in range(n)]}]}


MODES = [{'kind': 'learn', 'n_steps': 3, 'fs': 2}, {'kind': 'learn', 'n_steps': 4, 'fe': 1},
         {'kind': 'learn', 'n_episodes': 2, 'fs': 2}, {'kind': 'learn', 'n_episodes': 3, 'fe': 2},
         {'kind': 'evaluate', 'n_steps': 3}, {'kind': 'evaluate', 'n_episodes': 2},
         {'kind': 'evaluate', 'init': [70, 80]}]


def history_cases(tier):
    """Several runs on the same core: no run may depend on what an earlier one left behind."""
    T = 6 if tier == 'quick' else 8
    tail = [0, 1, 0, 0, 1, 0] * 6
    for h in (2, 3):
        for seq in itertools.product(range(len(MODES)), repeat=2 if tier == 'quick' else 3):
            for s in (scripts(T) if tier == 'quick' else scripts(6)):
                yield {'script': s + tail, 'h': h, 'cfg': {'cb': 1}, 'runs': [MODES[i] for i in seq]}
    if tier == 'quick':
        for h in (2, 3):
            for seq in itertools.product(range(len(MODES)), repeat=3):
                for s in ([0, 0, 0, 1], [1, 0, 1, 0]):
                    yield {'script': s + tail, 'h': h, 'cfg': {'cb': 1}, 'runs': [MODES[i] for i in seq]}


def config_cases(tier):
    """Stateful policies, episodic agents, algorithm-imposed next actions, mixed array backends, recording."""
    n = 5 if tier == 'quick' else 7
    for env, ag in itertools.product(['numpy', 'torch'], repeat=2):
        for h in (2, 3):
            for s in scripts(n):
                for stateful, sarsa in ((False, False), (True, False), (False, True)):
                    cfg = {'env': env, 'agent': ag, 'stateful': stateful, 'sarsa': sarsa, 'cb': 1}
                    yield {'script': s, 'h': h, 'cfg': cfg, 'runs': [{'kind': 'learn', 'n_steps': n, 'fs': 1}]}
                    yield {'script': s, 'h': h, 'cfg': dict(cfg, apre=[[2, 1], [3, 5]]),
                           'runs': [{'kind': 'learn', 'n_steps': n, 'fs': 2}]}
                    if not sarsa:
                        yield {'script': s, 'h': h, 'cfg': cfg, 'runs': [{'kind': 'evaluate', 'n_steps': n}]}
                for stateful in (False, True):
                    cfg = {'env': env, 'agent': ag, 'stateful': stateful, 'episodic': True, 'cb': 1}
                    yield {'script': s + [0, 0, 0, 0, 0], 'h': h, 'cfg': cfg,
                           'runs': [{'kind': 'learn', 'n_episodes': 2, 'fe': 1},
                                    {'kind': 'evaluate', 'init': [60] if h > 2 else [60, 61]}]}
    for h in (2, 3):
        for s in scripts(6):
            for m in ({'kind': 'learn', 'n_steps': 3, 'fs': 1}, {'kind': 'evaluate', 'n_steps': 3}):
                for r1, r2 in (((True, True), (True, True)), ((True, True), (True, False)), ((True, False), (False, False))):
                    yield {'script': s, 'h': h, 'cfg': {'cb': 0, 'cb_step': False},
                           'runs': [dict(m, render=r1[0], record=r1[1]), dict(m, render=r2[0], record=r2[1])]}


FAMILIES = [
    Family('single-run', single_cases, run_case, lambda t: 'all termination scripts of up to %d steps, horizons 1..%d '
           'and none, every stopping rule and fit period' % ((6, 3) if t == 'quick' else (9, 5))),
    Family('run-histories', history_cases, run_case, 'all sequences of %s runs over 7 run modes' % '2 (3)'),
    Family('configurations', config_cases, run_case, 'stateful x imposed actions x episodic x array backends x record'),
]
