"""C02: the vectorized interaction loop."""
import itertools

import numpy as np
import torch

from mushroom_rl.core import Agent, VectorCore, VectorizedEnvironment
from mushroom_rl.policy import Policy
from mc.harness import Family, expect
from mc.stubs import info, vals

ASSUMPTIONS = ['the vectorized environment, policy and agent are scripted stubs that log, per environment, what really '
               'happened; the loop and the vectorized dataset are the real ones',
               'an inactive environment reports arbitrary observations and rewards and absorbing = False',
               'running by steps makes whole joint steps: the number of transitions is rounded up']


def mk(x, backend, dtype=None):
    if backend == 'torch':
        return torch.tensor(x, dtype=dtype or torch.float64)
    return np.array(x, dtype=float if dtype is None else bool)


class Env(VectorizedEnvironment):
    """Environment e ends its k-th step (over all its episodes) absorbing iff scripts[e][k]."""

    def __init__(self, scripts, horizon, backend):
        self.scripts = scripts
        self.E = len(scripts)
        self.backend = backend
        self.h = horizon
        self.k = [0] * self.E
        self.c = [0] * self.E
        self.obs = [-1.] * self.E
        self.ep = [-1] * self.E
        self.t = [0] * self.E
        self.done = [True] * self.E
        self.log = [[] for _ in range(self.E)]        # per environment: transitions
        self.starts = [[] for _ in range(self.E)]     # per environment: initial observation of each episode
        self.joint = 0
        self.stops = 0
        self.junk = 0
        super().__init__(info(horizon, backend), self.E)

    def _out(self, mask):
        self.junk += 1
        return [self.obs[e] if mask[e] or self.ep[e] >= 0 else -7. - self.junk for e in range(self.E)]

    def reset_all(self, env_mask, state=None):
        m = [bool(x) for x in env_mask]
        expect(len(m) == self.E, 'mask size')
        for e in range(self.E):
            if m[e]:
                expect(self.done[e], 'environment', e, 'is reset in the middle of an episode')
                self.c[e] += 1
                self.ep[e] += 1
                self.t[e] = 0
                self.done[e] = False
                self.obs[e] = 1000. * (e + 1) + self.c[e] if state is None else float(state[e][0])
                self.starts[e].append(self.obs[e])
        infos = [{'ep': self.ep[e]} if m[e] else {} for e in range(self.E)]
        return mk([[x] for x in self._out(m)], self.backend), infos

    def step_all(self, env_mask, action):
        m = [bool(x) for x in env_mask]
        expect(isinstance(action, torch.Tensor) == (self.backend == 'torch'), 'action backend')
        r, ab, infos = [], [], []
        self.joint += 1
        expect(any(m), 'a joint step without any active environment')
        for e in range(self.E):
            if not m[e]:
                self.junk += 1
                r.append(-99. - self.junk)
                ab.append((self.joint + e) % 3 != 0)      # what an idle environment reports is arbitrary
                infos.append({})
                continue
            expect(not self.done[e], 'environment', e, 'stepped after the end of its episode')
            s = self.obs[e]
            self.c[e] += 1
            self.obs[e] = 1000. * (e + 1) + self.c[e]
            a = bool(self.scripts[e][self.k[e]])
            self.k[e] += 1
            self.t[e] += 1
            self.done[e] = a or self.t[e] >= self.h
            rew = self.obs[e] / 2
            self.log[e].append((s, float(action[e][0]), rew, self.obs[e], a, self.done[e], self.ep[e]))
            r.append(rew)
            ab.append(a)
            infos.append({'k': self.obs[e]})
        return mk([[x] for x in self._out(m)], self.backend), mk(r, self.backend), \
            mk(ab, self.backend, torch.bool if self.backend == 'torch' else bool), infos

    def stop(self):
        self.stops += 1

    def render_all(self, env_mask, record=False):
        return [('frame', self.obs[e]) for e in range(self.E)]


class Pol(Policy):
    def __init__(self, E, stateful, backend):
        super().__init__((1,) if stateful else None)
        self.E, self.stateful, self.backend = E, stateful, backend
        self.n = 0
        self.r = 0

    def draw_action(self, state, policy_state):
        self.n += 1
        expect(isinstance(state, torch.Tensor) == (self.backend == 'torch'), 'state backend in the policy')
        a = state * 0 + mk([[10. * self.n + e] for e in range(self.E)], self.backend)
        nps = policy_state + 100. if self.stateful else None
        return a, nps

    def reset(self):
        self.r += 1
        return mk([[-self.r - .125 * e] for e in range(self.E)], self.backend) if self.stateful else None


class Ag(Agent):
    def __init__(self, mdp_info, E, stateful, episodic, backend):
        self.E = E
        self.fits = []
        self.stops = 0
        self.nth = [0] * E
        self.ps0 = [[] for _ in range(E)]
        super().__init__(mdp_info, Pol(E, stateful, backend), is_episodic=episodic, backend=backend)

    def episode_start_vectorized(self, initial_states, episode_info, start_mask):
        ps, th = super().episode_start_vectorized(initial_states, episode_info, start_mask)
        for e in range(self.E):
            if bool(start_mask[e]):
                self.nth[e] += 1
                if ps is not None:
                    self.ps0[e].append(float(ps[e][0]))
        if self.info.is_episodic:
            th = mk([[100. * (e + 1) + self.nth[e]] for e in range(self.E)], self.info.backend)
        return ps, th

    def fit(self, dataset):
        self.fits.append((dump(dataset, self.info.is_stateful, self.info.is_episodic), self.log_len()))

    def stop(self):
        self.stops += 1


def dump(d, stateful, episodic):
    s, a, r, ss, ab, la = d.parse(to='numpy')
    rows = list(zip(vals(s), vals(a), vals(r), vals(ss), [bool(x) for x in ab], [bool(x) for x in la]))
    ps = list(zip(*[vals(x) for x in d.parse_policy_state(to='numpy')])) if stateful else None
    th = [float(x[0]) for x in d.theta_list] if episodic else None
    k = vals(d.info['k']) if 'k' in d.info else None
    return rows, ps, th, k


class Scale:
    def update(self, x):
        pass

    def __call__(self, x):
        return 2 * x + 1


def envof(a):
    return int(round(a)) % 10


class Tracker:
    """What has been handed over so far, per environment."""

    def __init__(self, env, agent, pre):
        self.env, self.agent, self.pre = env, agent, pre
        self.pos = [0] * env.E

    def skip(self):
        """Forget what a run collected and never handed over."""
        self.pos = [len(l) for l in self.env.log]

    def p(self, x):
        return 2 * x + 1 if self.pre else x

    def take(self, dumped, what):
        """Every row is the next transition of its environment; returns the list of (env, transition)."""
        rows, ps, th, k = dumped
        expect(k is not None and len(k) == len(rows), what, 'step information has', k and len(k), 'entries for',
               len(rows), 'transitions')
        out = []
        for i, row in enumerate(rows):
            e = envof(row[1])
            expect(0 <= e < self.env.E, what, 'unknown environment in', row)
            expect(self.pos[e] < len(self.env.log[e]), what, 'row', i, 'repeats or invents a transition of environment',
                   e, row)
            t = self.env.log[e][self.pos[e]]
            exp = (self.p(t[0]), t[1], t[2], self.p(t[3]), t[4])
            expect(row[:5] == exp, what, 'row', i, row, 'expected the next transition of environment', e, exp)
            expect(k[i] == t[3], what, 'row', i, 'carries the information of', k[i], 'instead of', t[3])
            if ps is not None:
                ep0 = [u[6] for u in self.env.log[e][:self.pos[e]]].count(t[6])
                v = self.agent.ps0[e][t[6]] + 100. * ep0
                expect(ps[i] == (v, v + 100.), what, 'row', i, 'policy states', ps[i], 'expected', (v, v + 100.))
            out.append((e, self.pos[e], t))
            self.pos[e] += 1
        for i, (e, q, t) in enumerate(out):
            la = rows[i][5]
            nxt = out[i + 1] if i + 1 < len(out) else None
            if t[5]:
                expect(la, what, 'row', i, 'ends an episode but is not marked last')
            elif nxt is not None and nxt[0] == e and nxt[1] == q + 1:
                expect(not la, what, 'row', i, 'is marked last in the middle of an episode')
            elif nxt is not None:
                expect(la, what, 'row', i, 'is followed by another trajectory but not marked last')
        if th is not None:
            eps = []
            for e, q, t in out:
                if (e, t[6]) not in eps:
                    eps.append((e, t[6]))
            exp = [100. * (e + 1) + ep + 1 for e, ep in eps]
            expect(th == exp, what, 'episode parameters', th, 'expected', exp)
        return out


def complete(out):
    """Number of complete episodes; None if some episode is partial."""
    seen = {}
    for e, q, t in out:
        seen.setdefault((e, t[6]), []).append(t[5])
    if not all(v[-1] for v in seen.values()):
        return None
    return len(seen)


def run_case(case, st):
    scripts = case['scripts']
    h = case['h'] or float('inf')
    cfg = case.get('cfg', {})
    eb, ab = cfg.get('env', 'numpy'), cfg.get('agent', 'numpy')
    env = Env(scripts, h, eb)
    agent = Ag(env.info, env.E, cfg.get('stateful', False), cfg.get('episodic', False), ab)
    agent.log_len = lambda: [len(l) for l in env.log]
    pre = cfg.get('pre', False)
    if pre:
        agent.add_core_preprocessor(Scale())
    n_cb = [0]
    cbs = []

    def cb(d):
        n_cb[0] += 1

    def cbstep(s):
        cbs.append(len(s))

    core = VectorCore(agent, env, callbacks_fit=[cb], callback_step=cbstep)
    tr = Tracker(env, agent, pre)
    for r, run in enumerate(case['runs']):
        tr.skip()
        env.done = [True] * env.E
        del agent.fits[:]
        n_cb[0] = 0
        base = [len(l) for l in env.log]
        ep0 = list(env.ep)
        j0, st0, as0, cb0 = env.joint, env.stops, agent.stops, len(cbs)
        kind = run['kind']
        what = 'run %d %s' % (r, run)
        args = {k: run[k] for k in ('n_steps', 'n_episodes') if k in run}
        if kind == 'learn':
            per = {'n_steps_per_fit': run['fs']} if 'fs' in run else {'n_episodes_per_fit': run['fe']}
            core.learn(quiet=True, **args, **per)
            d = None
        else:
            if 'init' in run:
                args['initial_states'] = mk([[float(x)] for x in run['init']], eb)
            d = core.evaluate(quiet=True, **args)
        new = [len(l) - b for l, b in zip(env.log, base)]
        total = sum(new)
        ended = sum(1 for e in range(env.E) for t in env.log[e][base[e]:] if t[5])
        started = sum(env.ep) - sum(ep0)
        st.step(env.joint - j0)
        if 'n_steps' in run:
            expect(total >= run['n_steps'], what, 'stopped after', total, 'transitions')
            # the joint step before the last one had not reached the request
            expect(total - env.E < run['n_steps'] or 'fe' in run, what, 'ran on after the request: ', total)
        K = run.get('n_episodes', len(run['init']) if 'init' in run else None)
        if K is not None:
            expect(ended == K and started == K, what, 'completed', ended, 'and started', started, 'episodes, requested', K)
        expect(env.stops == st0 + 1 and agent.stops == as0 + 1, what, 'stop calls')
        expect(len(cbs) - cb0 == env.joint - j0, what, 'step callback called', len(cbs) - cb0, 'times for',
               env.joint - j0, 'joint steps')
        if kind == 'evaluate':
            expect(not agent.fits, what, 'evaluation fits the agent')
            out = tr.take(dump(d, agent.info.is_stateful, agent.info.is_episodic), what)
            expect(len(out) == total, what, 'dataset has', len(out), 'of', total, 'transitions')
            if K is not None:
                expect(complete(out) == K, what, 'complete episodes', complete(out), 'requested', K)
                expect(int(d.n_episodes) == K, what, 'n_episodes', d.n_episodes)
            if 'init' in run:
                used = sorted(x for e in range(env.E) for x in env.starts[e][ep0[e] + 1:])
                expect(used == sorted(float(x) for x in run['init']), what, 'initial states used', used)
            expect(n_cb[0] == 0, what, 'fit callbacks in evaluation')
        else:
            handed = 0
            if 'fs' in run:
                for q, (f, lens) in enumerate(agent.fits):
                    out = tr.take(f, what + ' fit %d' % q)
                    expect(len(out) == run['fs'], what, 'fit', q, 'got', len(out), 'transitions')
                    collected = sum(lens) - sum(base)
                    # as early as possible: at the previous joint step (at most E fewer) it was not yet due
                    handed += len(out)
                    expect(collected >= handed and collected - env.E < handed, what, 'fit', q,
                           'was given after', collected, 'transitions, due at', handed)
                expect(total - handed < run['fs'], what, total - handed, 'transitions left without a fit')
            else:
                for q, (f, lens) in enumerate(agent.fits):
                    out = tr.take(f, what + ' fit %d' % q)
                    expect(complete(out) == run['fe'], what, 'fit', q, 'on', complete(out), 'complete episodes')
                    expect(sum(tr.pos) == sum(lens), what, 'fit', q, 'left out transitions that were collected')
                    handed += run['fe']
                expect(ended - handed < run['fe'], what, ended - handed, 'episodes left without a fit')
            expect(n_cb[0] == len(agent.fits), what, 'fit callbacks', n_cb[0], 'fits', len(agent.fits))
        for e in range(env.E):
            st.state(str(scripts), h, str(cfg), r, str(run), str(env.log[e][base[e]:]))
        st.outcome(str(case.get('h')), str(run), str([[t[4:6] for t in l] for l in env.log]))
    st.trace()


def scripts(n):
    return [list(b) for b in itertools.product([0, 1], repeat=n)]


TAIL = [0, 1, 0, 0, 1, 0, 1, 1, 0] * 8


def joint_scripts(E, n):
    for c in itertools.product(scripts(n), repeat=E):
        yield [s + TAIL[i:] for i, s in enumerate(c)]


def single_cases(tier):
    """One run, every joint termination script."""
    grid = [(2, 4), (3, 2)] if tier == 'quick' else [(2, 5), (3, 3), (4, 2)]
    for E, n in grid:
        for sc in joint_scripts(E, n):
            for h in (2, 3, None):
                for fs in (1, 2, 3, 4, 5):
                    yield {'scripts': sc, 'h': h, 'runs': [{'kind': 'learn', 'n_steps': 3 * E + 2, 'fs': fs}]}
                yield {'scripts': sc, 'h': h, 'runs': [{'kind': 'evaluate', 'n_steps': 2 * E + 1}]}
                if h is None:
                    continue
                for K in (1, 2, 3, 5):
                    yield {'scripts': sc, 'h': h, 'runs': [{'kind': 'evaluate', 'n_episodes': K}]}
                    yield {'scripts': sc, 'h': h,
                           'runs': [{'kind': 'evaluate', 'init': [50 + i for i in range(K)]}]}
                    for fe in (1, 2, 3):
                        yield {'scripts': sc, 'h': h, 'cfg': {'episodic': fe != 2},
                               'runs': [{'kind': 'learn', 'n_episodes': K, 'fe': fe}]}
                    yield {'scripts': sc, 'h': h, 'runs': [{'kind': 'learn', 'n_episodes': K, 'fs': 3}]}
                for fe in (1, 3):
                    yield {'scripts': sc, 'h': h, 'runs': [{'kind': 'learn', 'n_steps': 7, 'fe': fe}]}


MODES = [{'kind': 'learn', 'n_steps': 5, 'fs': 2}, {'kind': 'learn', 'n_steps': 5, 'fe': 1},
         {'kind': 'learn', 'n_episodes': 3, 'fs': 3}, {'kind': 'learn', 'n_episodes': 4, 'fe': 2},
         {'kind': 'evaluate', 'n_steps': 5}, {'kind': 'evaluate', 'n_episodes': 3},
         {'kind': 'evaluate', 'init': [70, 80, 90]}]


def history_cases(tier):
    L = 2 if tier == 'quick' else 3
    for seq in itertools.product(range(len(MODES)), repeat=L):
        for E, n in ((2, 3),) if tier == 'quick' else ((2, 3), (3, 1)):
            for sc in joint_scripts(E, n):
                yield {'scripts': sc, 'h': 3, 'runs': [MODES[i] for i in seq]}


def config_cases(tier):
    for eb, ab in itertools.product(['numpy', 'torch'], repeat=2):
        for sc in joint_scripts(2, 3 if tier == 'quick' else 4):
            for stateful in (False, True):
                for pre in (False, True):
                    cfg = {'env': eb, 'agent': ab, 'stateful': stateful, 'pre': pre}
                    yield {'scripts': sc, 'h': 3, 'cfg': cfg,
                           'runs': [{'kind': 'learn', 'n_steps': 9, 'fs': 3}, {'kind': 'evaluate', 'n_episodes': 3}]}
                    yield {'scripts': sc, 'h': 3, 'cfg': dict(cfg, episodic=True),
                           'runs': [{'kind': 'learn', 'n_episodes': 4, 'fe': 2},
                                    {'kind': 'evaluate', 'init': [60, 61, 62]}]}


FAMILIES = [
    Family('single-run', single_cases, run_case, 'all joint termination scripts of 2 environments x 4 steps and 3 x 2 '
           '(thorough: 2 x 5, 3 x 3, 4 x 2), horizons 2, 3 and none, every stopping rule, fit periods 1..5'),
    Family('run-histories', history_cases, run_case, 'all sequences of 2 (3) runs over 7 run modes'),
    Family('configurations', config_cases, run_case, 'backends x stateful x episodic x preprocessing'),
]
