"""Scripted components used to close the system: environments, policies and agents whose every answer the check decides."""
import numpy as np
import torch

from mushroom_rl.core import Agent, Environment, MDPInfo
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box


def arr(x, backend, n=1):
    v = [float(x)] * n
    if backend == 'torch':
        return torch.tensor(v, dtype=torch.float64)
    return np.array(v)


def val(a):
    """Scalar content of a one-element array of any backend (None stays None)."""
    if a is None:
        return None
    if isinstance(a, torch.Tensor):
        return float(a.detach().reshape(-1)[0])
    return float(np.asarray(a).reshape(-1)[0])


def vals(a):
    if a is None:
        return None
    if isinstance(a, torch.Tensor):
        a = a.detach().numpy()
    return [float(x) for x in np.asarray(a, dtype=float).reshape(-1)]


def info(horizon, backend='numpy', gamma=.9, n_obs=1, n_act=1, dt=.1):
    dtype = torch.float64 if backend == 'torch' else float
    ones = np.ones
    o = Box(-1e9 * ones(n_obs), 1e9 * ones(n_obs), data_type=dtype)
    a = Box(-1e9 * ones(n_act), 1e9 * ones(n_act), data_type=dtype)
    return MDPInfo(o, a, gamma, horizon, dt, backend)


class ScriptedEnv(Environment):
    """Observations are consecutive integers; the t-th step (over all episodes) is absorbing iff script[t]."""

    def __init__(self, script, horizon, backend='numpy', log=None):
        self.script = list(script)
        self.t = 0
        self.c = 0
        self.backend = backend
        self.log = log if log is not None else []
        super().__init__(info(horizon, backend))

    def reset(self, state=None):
        self.c += 1
        self.log.append(('reset', None if state is None else val(state)))
        obs = arr(self.c, self.backend) if state is None else state
        return obs, {'ep': self.c}

    def step(self, action):
        assert (self.backend == 'torch') == isinstance(action, torch.Tensor)
        self.c += 1
        absorbing = bool(self.script[self.t])
        self.t += 1
        self.log.append(('step', val(action)))
        return arr(self.c, self.backend), float(self.c) / 2, absorbing, {'k': self.c}

    def render(self, record=False):
        self.log.append(('render', bool(record)))
        return ('frame', self.c)

    def stop(self):
        self.log.append(('env_stop',))


class ScriptedPolicy(Policy):
    def __init__(self, stateful, backend, log):
        super().__init__((1,) if stateful else None)
        self.stateful = stateful
        self.backend = backend
        self.log = log
        self.n = 100
        self.r = 0

    def draw_action(self, state, policy_state):
        self.n += 1
        self.log.append(('draw', val(state), val(policy_state)))
        assert (self.backend == 'torch') == isinstance(state, torch.Tensor)
        nps = arr(val(policy_state) + 1000, self.backend) if self.stateful else None
        return arr(self.n, self.backend), nps

    def reset(self):
        self.r += 1
        self.log.append(('policy_reset',))
        return arr(-self.r, self.backend) if self.stateful else None


class ScriptedAgent(Agent):
    def __init__(self, mdp_info, stateful=False, episodic=False, backend='numpy', sarsa=False, log=None):
        self.log = log if log is not None else []
        self.sarsa = sarsa
        self.theta = 0
        self.na = 500
        super().__init__(mdp_info, ScriptedPolicy(stateful, backend, self.log), is_episodic=episodic,
                         backend=backend)

    def episode_start(self, initial_state, episode_info):
        self.log.append(('episode_start', val(initial_state), episode_info['ep']))
        ps, th = super().episode_start(initial_state, episode_info)
        if self.info.is_episodic:
            self.theta += 1
            th = self.theta
        return ps, th

    def fit(self, dataset):
        self.log.append(('fit', dump_dataset(dataset, self.info.is_stateful, self.info.is_episodic)))
        if self.sarsa:
            self.na += 1
            self.next_action = arr(self.na, self.info.backend)

    def stop(self):
        self.log.append(('agent_stop',))


def dump_dataset(d, stateful, episodic):
    s, a, r, ss, ab, la = d.parse(to='numpy')
    out = [vals(s), vals(a), vals(r), vals(ss), [bool(x) for x in ab], [bool(x) for x in la]]
    if stateful:
        ps, pss = d.parse_policy_state(to='numpy')
        out += [vals(ps), vals(pss)]
    if episodic:
        out.append([float(t) for t in d.theta_list])
    out.append(len(d))
    return out


class Affine:
    """Preprocessor x -> a x + b that records every use."""

    def __init__(self, a, b, tag, log):
        self.a, self.b, self.tag, self.log = a, b, tag, log

    def update(self, x):
        self.log.append(('pre_update', self.tag, vals(x)))

    def __call__(self, x):
        self.log.append(('pre_call', self.tag, vals(x)))
        return self.a * x + self.b
