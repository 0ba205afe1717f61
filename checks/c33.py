"""C33: environments backed by a simulator (MuJoCo, PyBullet, dm_control, Gym, Atari) expose exactly what the simulator does."""
import contextlib
import functools
import itertools
import os
import shutil
import tempfile

import gym
import mujoco
import numpy as np
import pybullet
from dm_control import mjcf, suite
from pybullet_utils.bullet_client import BulletClient

from mushroom_rl.environments.atari import Atari
from mushroom_rl.environments.dm_control_env import DMControl
from mushroom_rl.environments.gym_env import Gym
from mushroom_rl.environments.mujoco import MuJoCo, MultiMuJoCo
from mushroom_rl.environments.pybullet import PyBullet
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.utils.mujoco import ObservationType
from mushroom_rl.utils.mujoco.observation_helper import ObservationHelper
from mushroom_rl.utils.pybullet import PyBulletObservationType
from mc.explore import explore, controlled_random
from mc.harness import Family, expect

ASSUMPTIONS = ['the simulators themselves (MuJoCo, PyBullet, dm_control, gym) are trusted: the oracle is the same simulator driven directly',
               'the Atari emulator is a scripted stub with the interface of ALE (no ROMs here); frames have the target size, so that '
               'resizing is the identity',
               'pixel observations of dm_control use a stand-in for the renderer (no display here)']

OT = ObservationType
XML = '''<mujoco><option timestep="%(ts)s"/>
<worldbody><geom name="floor" type="plane" size="5 5 .1"/>
 <body name="cart" pos="0 0 1"><joint name="slide" type="slide" axis="1 0 0" limited="true" range="%(lo)s 3"/>
  <geom name="cartg" type="sphere" size=".1" mass="%(m)s" contype="0" conaffinity="0"/>
  <body name="pole" pos="0 0 .1"><joint name="hinge" type="hinge" axis="0 1 0"/>
   <geom name="poleg" type="capsule" fromto="0 0 0 0 0 .5" size=".02" mass=".2" contype="0" conaffinity="0"/>
   <site name="tip" pos="0 .1 .5"/></body></body>
 <body name="ball" pos="0 1 .3"><freejoint name="ballj"/><geom name="ballg" type="sphere" size=".1" mass=".3"/></body>
</worldbody>
<actuator><motor name="mslide" joint="slide" ctrllimited="true" ctrlrange="-1 2"/><motor name="mhinge" joint="hinge"/></actuator></mujoco>'''


def xml(ts='.01', m='1', lo='-2'):
    return XML % dict(ts=ts, m=m, lo=lo)


SPEC = {'sp': ('slide', OT.JOINT_POS, 1), 'sv': ('slide', OT.JOINT_VEL, 1), 'hp': ('hinge', OT.JOINT_POS, 1), 'hv': ('hinge', OT.JOINT_VEL, 1),
        'fp': ('ballj', OT.JOINT_POS, 7), 'fv': ('ballj', OT.JOINT_VEL, 6), 'bp': ('pole', OT.BODY_POS, 3), 'br': ('pole', OT.BODY_ROT, 4),
        'bv': ('ball', OT.BODY_VEL, 6), 'bw': ('pole', OT.BODY_VEL_WORLD, 6), 'tp': ('tip', OT.SITE_POS, 3), 'tr': ('tip', OT.SITE_ROT, 9)}
# slide = qpos 0 / qvel 0, hinge = 1 / 1, free joint = 2:9 / 2:8
QP = {'sp': slice(0, 1), 'hp': slice(1, 2), 'fp': slice(2, 9)}
QV = {'sv': slice(0, 1), 'hv': slice(1, 2), 'fv': slice(2, 8)}
LIM = {'sp': (-2., 3.)}


def spec_of(keys):
    return [(k, SPEC[k][0], SPEC[k][1]) for k in keys]


def raw(m, d, k):
    """The quantity named k, read directly."""
    if k in QP:
        return d.qpos[QP[k]].copy()
    if k in QV:
        return d.qvel[QV[k]].copy()
    name, t, _ = SPEC[k]
    if t in (OT.BODY_POS, OT.BODY_ROT, OT.BODY_VEL, OT.BODY_VEL_WORLD):
        i = mujoco.mj_name2id(m, mujoco.mjtObj.mjOBJ_BODY, name)
        if t is OT.BODY_POS:
            return d.xpos[i].copy()
        if t is OT.BODY_ROT:
            return d.xquat[i].copy()
        out = np.zeros(6)
        mujoco.mj_objectVelocity(m, d, mujoco.mjtObj.mjOBJ_XBODY, i, out, 1 if t is OT.BODY_VEL else 0)
        return out
    i = mujoco.mj_name2id(m, mujoco.mjtObj.mjOBJ_SITE, name)
    return d.site_xpos[i].copy() if t is OT.SITE_POS else d.site_xmat[i].copy().reshape(-1)


def obs_of(m, d, keys, omit):
    return np.concatenate([np.array([x for i, x in enumerate(raw(m, d, k)) if i not in omit.get(k, ())]) for k in keys])


# ---------------------------------------------------------------- the observation helper
def run_helper(case, st):
    keys, rem, add = case['k'], case['rem'], case['add']
    m = mujoco.MjModel.from_xml_string(xml())
    d = mujoco.MjData(m)
    vel = case['vel']
    h = ObservationHelper(spec_of(keys), m, d, max_joint_velocity=[10. + i for i in range(4)] if vel else None)
    omit = {}
    low, high = {}, {}
    nv = 0
    for k in keys:
        n = SPEC[k][2]
        l, u = LIM.get(k, (-np.inf, np.inf))
        low[k], high[k] = [l] * n, [u] * n
        if k in ('sv', 'hv') and vel:
            low[k], high[k] = [-10. - nv], [10. + nv]
            nv += 1
    order = list(keys)
    extra = {}
    for op in case['ops']:
        st.step()
        if op[0] == 'r':
            k, i = op[1], op[2]
            h.remove_obs(k, i)
            omit.setdefault(k, []).append(i)
        else:
            k, n, lo, hi = op[1], op[2], op[3], op[4]
            h.add_obs(k, n, lo, hi)
            extra[k] = n
            order.append(k)
            low[k] = list(lo) if isinstance(lo, list) else [lo] * n
            high[k] = list(hi) if isinstance(hi, list) else [hi] * n
        L = np.concatenate([[x for i, x in enumerate(low[k]) if i not in omit.get(k, ())] for k in order])
        H = np.concatenate([[x for i, x in enumerate(high[k]) if i not in omit.get(k, ())] for k in order])
        gl, gh = h.get_obs_limits()
        expect(np.array_equal(gl, L) and np.array_equal(gh, H), 'limits', gl.tolist(), gh.tolist(), 'expected', L.tolist(), H.tolist())
    # a generic state
    d.qpos[:2] = [.3, -.7]
    d.qvel[:] = np.arange(1., 9.) / 4
    d.qpos[2:9] = [.1, .2, .6, .5, .5, -.5, .5]
    mujoco.mj_forward(m, d)
    q0, v0 = d.qpos.copy(), d.qvel.copy()
    o = h._build_obs(m, d)
    want = obs_of(m, d, keys, omit)
    expect(np.array_equal(o, want), 'observation', o.tolist(), 'expected', want.tolist())
    full = np.concatenate([o] + [100. + np.arange(extra[k]) for k in order if k in extra])
    pos = 0
    jp, jv = [], []
    for k in order:
        n = extra[k] if k in extra else SPEC[k][2] - len(omit.get(k, ()))
        piece = h.get_from_obs(full, k)
        expect(np.array_equal(piece, full[pos:pos + n]), 'entry', k, piece.tolist(), 'expected', full[pos:pos + n].tolist())
        if k in ('sp', 'hp'):
            jp.append(pos)
        if k in ('sv', 'hv'):
            jv.append(pos)
        pos += n
    expect(pos == len(full) and list(h.get_all_observation_keys()) == order, 'keys')
    expect(np.array_equal(h.get_joint_pos_from_obs(full), full[jp]) and np.array_equal(h.get_joint_vel_from_obs(full), full[jv]), 'joint entries')
    gl, gh = h.get_obs_limits()
    for idx, (a, b) in ((jp, h.get_joint_pos_limits()), (jv, h.get_joint_vel_limits())):
        expect(np.array_equal(a, np.array(gl)[idx]) and np.array_equal(b, np.array(gh)[idx]), 'joint limits')
    # writing an observation back: only positions and velocities of joints
    new = o + .125
    h._modify_data(m, d, new)
    p = 0
    wq, wv = q0.copy(), v0.copy()
    for k in keys:
        for i in range(SPEC[k][2]):
            if i in omit.get(k, ()):
                continue
            if k in QP:
                wq[QP[k].start + i] = new[p]
            if k in QV:
                wv[QV[k].start + i] = new[p]
            p += 1
    expect(np.array_equal(d.qpos, wq) and np.array_equal(d.qvel, wv), 'state after writing an observation')
    st.state(repr(case))
    st.trace()
    st.outcome(len(full))


def helper_cases(tier):
    R = 2 if tier == 'quick' else 3
    allk = list(SPEC)
    for r in range(1, R + 1):
        for keys in itertools.permutations(allk, r):
            if r == 3 and not ({'fp', 'tp', 'bv'} & set(keys)):
                continue
            multi = [k for k in keys if SPEC[k][2] > 1]
            words = [[]]
            for k in multi[:1]:
                n = min(SPEC[k][2], 4)
                words += [[['r', k, i]] for i in range(n)]
                words += [[['r', k, i], ['r', k, j]] for i in range(n) for j in range(n) if i != j]
                full = range(SPEC[k][2])
                if SPEC[k][2] <= 4:
                    words += [[['r', k, a] for a in w] for w in itertools.permutations(full, SPEC[k][2] - 1)]
                else:
                    words += [[['r', k, a] for a in w] for w in (list(full)[1:], list(full)[:0:-1], [3, 0, 4, 1], [4, 3, 2, 0, 1])]
            if len(multi) > 1:
                a, b = multi[:2]
                words += [[['r', a, i], ['r', b, j]] for i in (0, 2) for j in (0, 1)] + [[['r', b, 1], ['r', a, 2], ['r', b, 0]]]
            A, B = ['a', 'x', 2, -1., 1.], ['a', 'y', 1, [-3.], [4.]]
            for w in words:
                yield {'k': list(keys), 'rem': 0, 'add': 0, 'vel': len(w) % 2 == 0, 'ops': w}
                if r < 3 and len(w) < 3:
                    yield {'k': list(keys), 'rem': 0, 'add': 0, 'vel': True, 'ops': w + [A, B]}
                    if w:
                        yield {'k': list(keys), 'rem': 0, 'add': 0, 'vel': True, 'ops': [A] + w + [B]}


# ---------------------------------------------------------------- MuJoCo
class Mix:
    """Everything a subclass may hook into, recorded."""
    thr = 1e9
    modify = False

    def setup_log(self):
        self.calls = []
        self.rew = []

    def reward(self, obs, action, next_obs, absorbing):
        self.rew.append((obs.copy(), np.array(action), next_obs.copy(), absorbing))
        return float(2 * obs.sum() + next_obs.sum())

    def is_absorbing(self, obs):
        self.calls.append('abs')
        return bool(obs[0] > self.thr)

    def _preprocess_action(self, action):
        return action * 2 if self.pre else action

    def _step_init(self, obs, action):
        self.calls.append(('init', obs.copy(), np.array(action)))

    def _simulation_pre_step(self):
        self.calls.append('pre')

    def _simulation_post_step(self):
        self.calls.append('post')

    def _step_finalize(self):
        self.calls.append('fin')

    def _create_info_dictionary(self, obs):
        return {'o': obs.copy()}

    def _modify_observation(self, obs):
        return obs * 3 + 1 if self.modify else obs


class Env(Mix, MuJoCo):
    pass


class EnvC(Env):
    """recomputes the control at every intermediate step from the current observation"""

    def _compute_action(self, obs, action):
        self.calls.append(('ctrl', obs.copy()))
        return action + .125 * obs[0]


class Multi(Mix, MultiMuJoCo):
    pass


ACTS = [np.array([1.5, -.5]), np.array([-.75, .25])]
SPECS = [['sp', 'sv', 'hp', 'hv'], ['fp', 'hv', 'sp'], ['tp', 'bp', 'sv'], ['bv', 'hp', 'br'], ['bw', 'fv', 'tr'], ['hp', 'tp', 'fp', 'sv']]
ACTU = [[], ['mhinge'], ['mhinge', 'mslide'], ['mslide']]
_TMP = []


def scratch(f):
    """Model files live in a scratch folder that is removed after every case."""
    @functools.wraps(f)
    def g(case, st):
        try:
            return f(case, st)
        finally:
            while _TMP:
                shutil.rmtree(_TMP.pop(), ignore_errors=True)
    return g


def load(form, **kw):
    if form == 'path':
        if not _TMP:
            _TMP.append(tempfile.mkdtemp(prefix='verif-c33-'))
        p = os.path.join(_TMP[0], 'm%s.xml' % '_'.join('%s%s' % i for i in sorted(kw.items())))
        with open(p, 'w') as f:
            f.write(xml(**kw))
        return p
    return mjcf.from_xml_string(xml(**kw))


class Sim:
    """The same simulator, driven directly."""

    def __init__(self, texts, keys, ts, nint, nsub, actu, omit=None):
        self.ms = [mujoco.MjModel.from_xml_string(t) for t in texts]
        for m in self.ms:
            if ts:
                m.opt.timestep = ts
        self.ds = [mujoco.MjData(m) for m in self.ms]
        self.keys, self.nint, self.nsub = keys, nint, nsub
        self.ids = [0, 1] if not actu else [['mslide', 'mhinge'].index(a) for a in actu]
        self.omit = omit or {}
        self.i = 0

    @property
    def m(self):
        return self.ms[self.i]

    @property
    def d(self):
        return self.ds[self.i]

    def obs(self):
        return obs_of(self.m, self.d, self.keys, self.omit)

    def reset(self, obs=None):
        mujoco.mj_resetData(self.m, self.d)
        if obs is not None:
            p = 0
            for k in self.keys:
                for i in range(SPEC[k][2]):
                    if k in QP:
                        self.d.qpos[QP[k].start + i] = obs[p]
                    if k in QV:
                        self.d.qvel[QV[k].start + i] = obs[p]
                    p += 1
        mujoco.mj_forward(self.m, self.d)
        return self.obs()

    def step(self, a, closed):
        o = self.obs_last
        for _ in range(self.nint):
            self.d.ctrl[self.ids] = a + .125 * o[0] if closed else a
            mujoco.mj_step(self.m, self.d, self.nsub)
            o = self.obs()
        return o


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def drive(env, sim, word, case, st, closed, na, choices=None):
    """Runs a word of operations on both."""
    nint = case['int']
    f = (lambda o: o * 3 + 1) if env.modify else (lambda o: o)
    first = True
    for op in word:
        st.step()
        if op[0] == 'r':
            arg = None
            if op == 'ro':
                arg = sim.reset() + .0625
                if 'fp' in sim.keys:
                    p = sum(SPEC[k][2] for k in sim.keys[:sim.keys.index('fp')])
                    arg[p:p + 7] = [.1, .2, .6, .5, .5, -.5, .5]
            keep = None if arg is None else arg.copy()
            res = env.reset(arg) if arg is not None else env.reset()
            expect(isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], dict), 'reset returns', type(res))
            if choices is not None:
                sim.i = choices()
            want = sim.reset(arg)
            o = res[0]
            expect(close(o, f(want)), 'observation after reset', np.array(o).tolist(), 'expected', f(want).tolist())
            expect(keep is None or np.array_equal(keep, arg), 'reset changed its argument')
            sim.obs_last = want
        else:
            a = ACTS[int(op[1])][:na].copy()
            keep = a.copy()
            del env.calls[:]
            del env.rew[:]
            old = sim.obs_last
            o, r, ab, info = env.step(a)
            eff = a * 2 if env.pre else a
            want = sim.step(eff, closed)
            expect(np.array_equal(a, keep), 'step changed its argument')
            expect(close(o, f(want)), 'observation', np.array(o).tolist(), 'expected', f(want).tolist())
            expect(np.isclose(r, 2 * old.sum() + want.sum()), 'reward', r, 'expected', 2 * old.sum() + want.sum())
            expect(len(env.rew) == 1 and close(env.rew[0][0], old) and close(env.rew[0][1], eff) and close(env.rew[0][2], want), 'arguments of the reward')
            expect(bool(ab) == bool(want[0] > env.thr) and bool(env.rew[0][3]) == bool(ab), 'absorbing', ab)
            expect(close(info['o'], want), 'information of the step')
            names = [c if isinstance(c, str) else c[0] for c in env.calls]
            expect([n for n in names if n in ('pre', 'post')] == ['pre', 'post'] * nint, 'intermediate steps', names)
            expect(names.count('init') == 1 and names[0] == 'init' and names.count('fin') == 1, 'hooks', names)
            expect(close(env.calls[0][1], old) and close(env.calls[0][2], eff), 'arguments of _step_init')
            if closed:
                expect(names.count('ctrl') == nint, 'control computed', names.count('ctrl'), 'times')
            sim.obs_last = want
            st.outcome(bool(ab))
        st.state(repr(case['w'] if 'w' in case else ''), np.round(sim.obs_last, 6).tobytes(), sim.i)
        # the caller may do what it wants with what it was given
        o[...] = -77.
        first = False


@scratch
def run_mujoco(case, st):
    keys = SPECS[case['s']]
    actu = ACTU[case['a']]
    kw = dict(ts='.01')
    cls = EnvC if case['c'] else Env
    ts = case['ts']

    env = cls.__new__(cls)
    env.pre, env.modify, env.thr = case['pre'], case['mod'], case['thr']
    env.setup_log()
    cls.__init__(env, load(case['f'], **kw), actu, spec_of(keys), .9, 50, timestep=ts, n_substeps=case['sub'], n_intermediate_steps=case['int'])
    sim = Sim([xml(**kw)], keys, ts, case['int'], case['sub'], actu)
    na = len(sim.ids)
    lo, hi = np.array([-1., -np.inf])[sim.ids], np.array([2., np.inf])[sim.ids]
    sp = env.info.action_space
    expect(np.array_equal(sp.low, lo) and np.array_equal(sp.high, hi), 'action limits', sp.low, sp.high)
    n = sum(SPEC[k][2] for k in keys)
    expect(env.info.observation_space.shape == (n,), 'size of the observation')
    expect(env.info.gamma == .9 and env.info.horizon == 50, 'discount and horizon')
    expect(np.isclose(env.info.dt, (ts or .01) * case['int'] * case['sub']) and np.isclose(env.dt, env.info.dt), 'control period', env.info.dt)
    drive(env, sim, ['r'] + case['w'], case, st, case['c'], na)
    st.trace()


WORDS = [list(w) for n in (3,) for w in itertools.product(['s0', 's1', 'r', 'ro'], repeat=n)]


def mujoco_cases(tier):
    words = WORDS if tier == 'quick' else [list(w) for w in itertools.product(['s0', 's1', 'r', 'ro'], repeat=4)]
    for s, a, c, (i, sub), ts in itertools.product(range(6), range(4), (False, True), ((1, 1), (2, 1), (1, 3), (3, 2)), (None, .004)):
        if ts and (a in (1, 3) or s in (2, 3)):
            continue
        for j, w in enumerate(words):
            if (a in (0, 3)) and j % 4:
                continue
            yield dict(s=s, a=a, c=c, int=i, sub=sub, ts=ts, f='path' if j % 2 else 'handle', w=w, pre=bool(j % 3 == 1), mod=bool(j % 5 == 2),
                       thr=[1e9, .02, -1e9][j % 3])


# additional data and collisions
class Fall(Env):
    pass


@scratch
def run_data(case, st):
    keys = ['sp', 'fp']
    add = [('a_' + k, SPEC[k][0], SPEC[k][1]) for k in SPEC]
    env = Env.__new__(Env)
    env.pre, env.modify, env.thr = False, False, 1e9
    env.setup_log()
    Env.__init__(env, load('path', ts='.01'), [], spec_of(keys), .9, 50, additional_data_spec=add,
                 collision_groups=[('ball', ['ballg']), ('floor', ['floor']), ('pole', ['poleg', 'cartg']), ('both', ['floor', 'cartg'])])
    sim = Sim([xml(ts='.01')], keys, None, 1, 1, [])
    env.reset()
    sim.obs_last = sim.reset()
    for op in case['w']:
        st.step()
        if op == 's':
            env.step(ACTS[0].copy())
            sim.obs_last = sim.step(ACTS[0], False)
        elif op == 'r':
            env.reset()
            sim.obs_last = sim.reset()
        else:
            k, v = op
            n = SPEC[k][2]
            val = np.array([0., 1., v, 1., 0., 0., 0.]) if k == 'fp' else np.array([.1 * (i + 1) for i in range(n)])
            env._write_data('a_' + k, val)
            if k in QP:
                sim.d.qpos[QP[k]] = val
            else:
                sim.d.qvel[QV[k]] = val
        for k in SPEC:
            got = env._read_data('a_' + k)
            expect(close(got, raw(sim.m, sim.d, k)), 'data', k, got.tolist(), 'expected', raw(sim.m, sim.d, k).tolist())
            got[...] = -5.
        for g1, g2 in itertools.product(['ball', 'floor', 'pole', 'both'], repeat=2):
            ids = {'ball': {'ballg'}, 'floor': {'floor'}, 'pole': {'poleg', 'cartg'}, 'both': {'floor', 'cartg'}}
            name = lambda i: mujoco.mj_id2name(sim.m, mujoco.mjtObj.mjOBJ_GEOM, i)
            hit = None
            for c in range(sim.d.ncon):
                a, b = name(sim.d.contact[c].geom1), name(sim.d.contact[c].geom2)
                if a in ids[g1] and b in ids[g2] or a in ids[g2] and b in ids[g1]:
                    hit = c
                    break
            expect(env._check_collision(g1, g2) == (hit is not None), 'collision', g1, g2)
            force = np.zeros(6)
            if hit is not None:
                mujoco.mj_contactForce(sim.m, sim.d, hit, force)
            expect(close(env._get_collision_force(g1, g2), force), 'collision force', g1, g2)
            st.outcome(hit is not None)
        st.state(sim.d.qpos.round(6).tobytes(), sim.d.qvel.round(6).tobytes())
    st.trace()


def data_cases(tier):
    L = 4 if tier == 'quick' else 5
    ops = ['s', 'r', ['fp', .09], ['fp', .5], ['sv', 0], ['hp', 0], ['fv', 0]]
    for n in range(1, L + 1):
        for w in itertools.product(range(7), repeat=n):
            if n > 3 and 0 not in w[-2:]:
                continue
            yield {'w': [ops[i] for i in w]}


# several models
@scratch
def run_multi(case, st):
    keys = SPECS[case['s']]
    kws = [dict(ts='.01', m=m) for m in ('1', '3', '.25')[:case['n']]]

    def go(ch):
        env = Multi.__new__(Multi)
        env.pre, env.modify, env.thr = False, case['mod'], .02
        env.setup_log()
        with controlled_random(ch) as rnd:
            Multi.__init__(env, [load('path' if i % 2 else 'handle', **k) for i, k in enumerate(kws)], [], spec_of(keys), .9, 50, timestep=case['ts'],
                           n_substeps=2, n_intermediate_steps=case['int'], random_env_reset=case['rand'])
            sim = Sim([xml(**k) for k in kws], keys, case['ts'], case['int'], 2, [])
            cur = [0]

            def choices():
                if case['rand']:
                    return ch.path[-1] if case['n'] > 1 else 0
                cur[0] = (cur[0] + 1) % case['n']
                return cur[0]
            expect(np.isclose(env.info.dt, (case['ts'] or .01) * 2 * case['int']), 'control period')
            drive(env, sim, ['r'] + case['w'], case, st, False, 2, choices)
        return tuple(ch.path)
    for path, p, r in explore(go):
        st.trace()


def multi_cases(tier):
    words = [w for w in WORDS if 'ro' not in w] if tier == 'quick' else [list(w) for w in itertools.product(['s0', 's1', 'r'], repeat=4)]
    for s, n, ts, i, rand, mod in itertools.product((0, 2, 4), (1, 2, 3), (None, .004), (1, 2), (True, False), (False, True)):
        for w in words:
            yield dict(s=s, n=n, ts=ts, int=i, rand=rand, mod=mod, w=w)


@scratch
def run_multi_bad(case, st):
    """Models with different limits must be refused; the identity vectors of models are distinct and binary."""
    if 'lo' in case:
        try:
            Multi([load('path', ts='.01'), load('path', ts='.01', lo=case['lo'])], [], spec_of(['hp', 'sp']), .9, 50)
            ok = True
        except ValueError:
            ok = False
        expect(ok == (case['lo'] == '-2'), 'models with limits', case['lo'], 'accepted' if ok else 'refused')
    else:
        n = case['n']
        seen = [tuple(MultiMuJoCo._get_env_id_map(i, n).tolist()) for i in range(n)]
        bits = max(1, (max(n, 2) - 1).bit_length())
        for i, s in enumerate(seen):
            expect(s == tuple(float(x) for x in format(i, '0%db' % bits)), 'identity of model', i, 'of', n, s)
            st.state(n, i)
    st.step()
    st.trace()
    st.outcome(repr(case))


def multi_bad_cases(tier):
    for lo in ('-2', '-1', '-2.5'):
        yield {'lo': lo}
    for n in range(1, 70):
        yield {'n': n}


# ---------------------------------------------------------------- Gym
class Toy(gym.Env):
    """Scripted gym environment; observations count the calls."""
    last = None

    def __init__(self, obs='box', act='disc', script=(), dt=None):
        if dt is not None:
            self.dt = dt
        self.kind = obs
        self.observation_space = {'box': gym.spaces.Box(np.array([-1., -2.], dtype=np.float32), np.array([3., 4000.], dtype=np.float32), dtype=np.float32),
                                  'img': gym.spaces.Box(0, 255, (2, 3), dtype=np.uint8),
                                  'disc': gym.spaces.Discrete(5000)}[obs]
        self.action_space = {'disc': gym.spaces.Discrete(3), 'box': gym.spaces.Box(-2., 5., (2,), dtype=np.float32)}[act]
        self.script = list(script)
        self.c = 0
        self.t = 0
        self.state = None
        self.log = []
        Toy.last = self

    def obs(self):
        self.c += 1
        if self.kind == 'disc':
            return self.c
        return np.full((2, 3), self.c % 256, dtype=np.uint8) if self.kind == 'img' else np.array([.5, self.c], dtype=np.float32)

    def reset(self, **kw):
        self.t = 0
        self.log.append('reset')
        return self.obs()

    def step(self, action):
        self.log.append(('step', np.array(action).tolist()))
        e = self.script[self.t % len(self.script)] if self.script else 0
        self.t += 1
        return self.obs(), self.c / 2, bool(e), {'k': self.c}

    def close(self):
        self.log.append('close')


class Plus(gym.ObservationWrapper):
    def __init__(self, env, k=1):
        super().__init__(env)
        self.k = k

    def observation(self, o):
        return o + self.k


for _n, _m in (('VerifToy-v0', 2), ('VerifToyFree-v0', None)):
    if _n not in gym.envs.registry:
        gym.register(id=_n, entry_point=Toy, max_episode_steps=_m)


def run_gym(case, st):
    name = 'VerifToy-v0' if case['lim'] else 'VerifToyFree-v0'
    kw = {}
    off = 0
    if case['wr'] == 1:
        kw = dict(wrappers=[(Plus, dict(k=3))])
        off = 3
    elif case['wr'] == 2:
        kw = dict(wrappers=[(Plus, dict()), (Plus, dict())], wrappers_args=[dict(k=10), dict(k=20)])
        off = 30
    if case['h'] is not None:
        kw['horizon'] = case['h']
    if case['dt']:
        kw['dt'] = case['dt']
    try:
        env = Gym(name, gamma=.75, obs=case['o'], act=case['a'], script=case['s'], **kw)
    except RuntimeError:
        expect(case['h'] is None and not case['lim'], 'refused although the horizon is known')
        st.outcome('refused')
        return
    expect(case['lim'] or case['h'] is not None, 'an environment without horizon is accepted')
    toy = Toy.last
    i = env.info
    expect(i.horizon == (2 if case['h'] is None else case['h']) and i.gamma == .75 and i.dt == (case['dt'] or .1), 'horizon, discount, period',
           i.horizon, i.gamma, i.dt)
    if case['o'] == 'disc':
        expect(isinstance(i.observation_space, Discrete) and i.observation_space.n == 5000, 'observation space')
    else:
        sp = toy.observation_space
        expect(isinstance(i.observation_space, Box) and np.array_equal(i.observation_space.low, sp.low) and
               np.array_equal(i.observation_space.high, sp.high) and i.observation_space.shape == sp.shape, 'observation space')
    if case['a'] == 'disc':
        expect(isinstance(i.action_space, Discrete) and i.action_space.n == 3, 'action space')
    else:
        expect(np.array_equal(i.action_space.low, [-2., -2.]) and np.array_equal(i.action_space.high, [5., 5.]), 'action space')

    def obs_ok(o):
        w = {'disc': lambda: np.array([toy.c + off]), 'box': lambda: np.array([.5, toy.c], dtype=np.float32) + off,
             'img': lambda: np.full((2, 3), toy.c % 256, dtype=np.uint8) + off}[case['o']]()
        expect(isinstance(o, np.ndarray) and o.ndim >= 1 and np.array_equal(o, w), 'observation', o, 'expected', w)
    toy.log.clear()
    toy.t = 0
    for op in ['r'] + case['w']:
        st.step()
        n = len(toy.log)
        if op == 'r':
            o, info = env.reset()
            expect(toy.log[n:] == ['reset'] and info == {}, 'calls', toy.log[n:])
            obs_ok(o)
        elif op == 'x':
            env.stop()
        else:
            a = np.array([op % 3]) if case['a'] == 'disc' else np.array([op / 2., -op])
            e = toy.script[toy.t % len(toy.script)] if toy.script else 0
            o, r, ab, info = env.step(a)
            expect(toy.log[n:] == [('step', a[0].tolist() if case['a'] == 'disc' else a.tolist())], 'calls', toy.log[n:])
            expect(r == toy.c / 2 and bool(ab) == bool(e) and info.get('k') == toy.c, 'reward, absorbing, information', r, ab, info, 'expected', toy.c / 2, e)
            obs_ok(o)
        st.state(repr(case), toy.c, toy.t)
    st.trace()
    st.outcome(repr(toy.log))


def gym_cases(tier):
    L = 4 if tier == 'quick' else 5
    for o, a, lim, wr, h, dt in itertools.product(('box', 'disc', 'img'), ('disc', 'box'), (True, False), (0, 1, 2), (None, 1, 7), (None, .25)):
        if dt and (wr or h == 1):
            continue
        for s in ((), (0, 1), (1, 0, 0)):
            for w in itertools.product([1, 2, 'r'], repeat=L):
                if wr and 'r' in w[:2]:
                    continue
                yield dict(o=o, a=a, lim=lim, wr=wr, h=h, dt=dt, s=list(s), w=list(w))


def run_gym_state(case, st):
    """Starting from a given state: the dynamics continue from that state."""
    env = Gym(case['id'], horizon=50, gamma=.9)
    s0 = np.array(case['s'])
    for rep in range(2):
        o, _ = env.reset(s0.copy())
        expect(np.allclose(o, s0), 'observation after a reset to a state', o)
        ref = gym.make(case['id']).unwrapped
        ref.reset()
        ref.state = s0.copy()
        ref.steps_beyond_done = None
        for a in case['w']:
            st.step()
            o, r, ab, _ = env.step(np.array([a]))
            ow, rw, aw, _ = ref.step(a)
            expect(np.allclose(o, ow, atol=1e-6) and np.isclose(r, rw) and bool(ab) == bool(aw), 'after the reset to', s0, 'step gives', o, r, ab, 'expected', ow, rw, aw)
            st.state(np.round(ow, 6).tobytes())
            if aw:
                break
    env.stop()
    st.trace()
    st.outcome(repr(case['w']))


def gym_state_cases(tier):
    L = 3 if tier == 'quick' else 5
    for s in ([0., 0., 0., 0.], [.1, -.2, .05, .3], [2.3, 1.5, 0., 0.], [0., 0., -.2, -1.]):
        for w in itertools.product((0, 1), repeat=L):
            yield dict(id='CartPole-v1', s=s, w=list(w))
    for s in ([-.5, 0.], [.45, .06], [-1.2, -.05]):
        for w in itertools.product((0, 1, 2), repeat=L):
            yield dict(id='MountainCar-v0', s=s, w=list(w))


# ---------------------------------------------------------------- Atari
class Ale:
    def __init__(self, env):
        self.env = env

    def lives(self):
        return self.env.lives


class FakeAtari(gym.Env):
    """Every emulator step follows the script: 0 nothing, 1 a life is lost, 2 game over."""

    def __init__(self, script, fire):
        self.observation_space = gym.spaces.Box(0, 255, (8, 6, 3), dtype=np.uint8)
        self.action_space = gym.spaces.Discrete(4)
        self.script = script
        self.fire = fire
        self.lives = 3
        self.ale = Ale(self)
        self.t = 0
        self.c = 0
        self.log = []
        self.frames = []

    def get_action_meanings(self):
        return ['NOOP', 'FIRE' if self.fire else 'UP', 'LEFT', 'RIGHT']

    def frame(self):
        self.c += 1
        f = np.zeros((8, 6, 3), dtype=np.uint8)
        f[self.c % 8, self.c % 6] = 200
        f[0, 0] = self.c % 250
        self.frames.append(f[:, :, 0].copy())
        return f

    def reset(self, **kw):
        self.log.append('reset')
        self.lives = 3
        return self.frame()

    def step(self, a):
        self.log.append(int(a))
        e = self.script[self.t % len(self.script)]
        self.t += 1
        if e:
            self.lives = 0 if e == 2 else max(self.lives - 1, 0)
        return self.frame(), float(self.t), e == 2, {'lives': self.lives}

    def render(self, mode='human'):
        return mode

    def close(self):
        self.log.append('close')


class Wrap(gym.Wrapper):
    pass


def run_atari(case, st):
    hist = case['h']
    skip = case['skip']

    def go(ch):
        fake = FakeAtari(case['s'], case['fire'])
        real = gym.make
        gym.make = lambda name, **k: Wrap(fake)
        try:
            env = Atari('Pong' + ('NoFrameskip' if skip else '') + '-v4', width=6, height=8, ends_at_life=case['life'], max_pooling=case['pool'],
                        history_length=hist, max_no_op_actions=case['noop'])
        finally:
            gym.make = real
        sp = env.info.observation_space
        expect(sp.shape == (hist, 8, 6) and env.info.action_space.n == 4, 'spaces')
        fresh, idle, lives = True, False, 3
        stack = None
        fire = noops = None
        pend = 'r'
        with controlled_random(ch):
            for op in ['r'] + case['w']:
                st.step()
                n = len(fake.log)
                if pend == 'r' or op == 'r':
                    k0 = len(ch.path)
                    o, info = env.reset()
                    noops = ch.path[k0] if case['noop'] else 0
                    if fresh or (idle and fake.log[n:]):
                        expect(fake.log[n:] == ['reset'], 'emulator calls at reset', fake.log[n:])
                        stack = [fake.frames[-1]] * hist
                        lives = 3
                        fresh, idle = False, True       # a game in which nothing was played yet may be started again
                    else:
                        expect(fake.log[n:] == [], 'the game is restarted although it is not over', fake.log[n:])
                    fire = case['fire']
                    pend = None
                    if op == 'r':
                        check(o, stack)
                        continue
                    n = len(fake.log)
                if op == 'x':
                    env.stop()
                    expect(fake.log[n:] == ['close'], 'stop')
                    fresh = True
                    pend = 'r'
                    continue
                f0, t0 = len(fake.frames), fake.t
                idle = False
                o, r, ab, info = env.step(np.array([op]))
                want = ([1] if fire else []) + [0] * noops
                pre = len(want)
                fire, noops = False, 0
                over, reps = False, 0
                while reps < (hist if skip else 1) and not over:
                    over = case['s'][(t0 + pre + reps) % len(case['s'])] == 2
                    reps += 1
                want += [op] * reps
                expect(fake.log[n:] == want, 'emulator actions', fake.log[n:], 'expected', want)
                expect(r == sum(float(t0 + pre + j + 1) for j in range(reps)), 'reward', r)
                fr = fake.frames[f0 + pre:]
                if skip and hist > 1:
                    if reps == hist:
                        a, b = fr[-2].astype(float), fr[-1].astype(float)
                        f = np.maximum(a, b) if case['pool'] else np.floor((a + b) / 2)
                    else:
                        f = None            # after a game over in the middle of a repetition the frame is not specified
                else:
                    f = fr[-1]
                if f is None:
                    stack = stack[1:] + [None]
                else:
                    stack = stack[1:] + [f]
                lost = info['lives'] != lives
                lives = info['lives']
                expect(bool(ab) == (over or (lost and case['life'])), 'absorbing', ab, 'game over', over, 'life lost', lost)
                if lost:
                    fire = case['fire']
                fresh = over
                check(o, stack)
                if ab:
                    pend = 'r'
                st.state(repr(case), fake.t, fake.c)
        st.outcome(repr(fake.log))

    for path, p, _ in explore(go):
        st.trace()


def check(o, stack):
    a = np.asarray(o)
    expect(a.shape == (len(stack), 8, 6) and a.dtype == np.uint8 and o.shape == a.shape, 'frames', a.shape, a.dtype)
    for i, f in enumerate(stack):
        expect(f is None or np.max(np.abs(a[i].astype(int) - f)) <= 1, 'frame', i, 'of the history', a[i].tolist(), 'expected', None if f is None else f.tolist())


def atari_cases(tier):
    th = tier != 'quick'
    words = [list(w) for w in itertools.product((2, 3), repeat=4)] + [[2, 'r', 3, 2], [3, 2, 'x', 2], [2, 'x', 3, 'r'], ['r', 2, 2, 'r']]
    if not th:
        words = words[5:11:2] + words[-4:]
    for s in itertools.product((0, 1, 2), repeat=4 if not th else 5):
        for skip, h, pool, life, fire, noop in itertools.product((True, False), (1, 2, 4), (True, False), (True, False), (True, False), (0, 1)):
            if (not pool and not skip) or (h == 1 and (not skip or not pool)) or (noop and h == 2):
                continue
            for j, w in enumerate(words):
                if not th and (j + sum(s)) % 2:
                    continue
                yield dict(s=list(s), skip=skip, h=h, pool=pool, life=life, fire=fire, noop=noop, w=w)


# ---------------------------------------------------------------- dm_control
class FakeRender:
    def __init__(self, physics):
        self.n = 0

    def __call__(self, *a, height=4, width=5, **k):
        self.n += 1
        return np.arange(height * width * 3, dtype=np.uint8).reshape(height, width, 3) + self.n


def run_dm(case, st):
    seed = case['seed']
    kw = {} if case['h'] is None else dict(horizon=case['h'])
    dom, task = case['d']
    ref = suite.load(dom, task, task_kwargs={'random': seed, 'time_limit': case['tl']})
    step_limit = ref._step_limit
    ref._step_limit = np.inf
    if case['px']:
        # the renderer is replaced: the k-th picture has known content
        from dm_control.mujoco import Physics
        fake = FakeRender(None)
        saved = Physics.render
        Physics.render = lambda self, *a, **k: fake(*a, **k)
        try:
            env = DMControl(dom, task, gamma=.9, task_kwargs={'random': seed, 'time_limit': case['tl']}, use_pixels=True, pixels_width=5, pixels_height=4, **kw)
            _dm(env, ref, case, st, step_limit, fake)
        finally:
            Physics.render = saved
    else:
        env = DMControl(dom, task, gamma=.9, task_kwargs={'random': seed, 'time_limit': case['tl']}, **kw)
        _dm(env, ref, case, st, step_limit, None)
    st.trace()


def _dm(env, ref, case, st, limit, fake):
    expect(env.info.horizon == (limit if case['h'] is None else case['h']) and env.info.gamma == .9, 'horizon', env.info.horizon, 'expected', limit)
    sp = ref.action_spec()
    expect(np.array_equal(env.info.action_space.low, sp.minimum) and np.array_equal(env.info.action_space.high, sp.maximum), 'action space')

    def ok(o, ts):
        if fake is None:
            want = np.concatenate([np.atleast_1d(v).reshape(-1) for v in ts.observation.values()])
            expect(env.info.observation_space.shape == want.shape, 'observation space')
        else:
            want = (np.arange(60, dtype=np.uint8).reshape(4, 5, 3) + np.uint8(fake.n)).transpose(2, 0, 1)
            expect(env.info.observation_space.shape == (3, 4, 5), 'observation space')
        expect(np.shape(o) == want.shape and np.allclose(o, want), 'observation', o, 'expected', want)
    for i, op in enumerate(['r'] + case['w']):
        st.step()
        if op == 'r':
            o, info = env.reset()
            ok(o, ref.reset())
        else:
            lo, hi = np.maximum(sp.minimum, -1.), np.minimum(sp.maximum, 1.)
            a = lo + (hi - lo) * (.25 if op == 0 else .875)
            o, r, ab, info = env.step(a.copy())
            ts = ref.step(a)
            ok(o, ts)
            expect(np.isclose(r, ts.reward) and bool(ab) == ts.last(), 'reward, absorbing', r, ab, 'expected', ts.reward, ts.last())
        o = np.array(o)
        st.state(repr(case['d']), case['seed'], np.round(o.astype(float), 6).tobytes())
        st.outcome(op)


def dm_cases(tier):
    L = 4 if tier == 'quick' else 6
    for d in (['pendulum', 'swingup'], ['cartpole', 'balance'], ['reacher', 'easy']) if tier == 'quick' else (['pendulum', 'swingup'], ['cartpole', 'balance'],
              ['reacher', 'easy'], ['point_mass', 'easy'], ['acrobot', 'swingup']):
        for seed in (1, 2):
            for h, tl, px in ((None, .05, False), (3, .05, False), (None, .05, True), (7, .02, True)):
                for w in itertools.product((0, 1, 'r'), repeat=L):
                    if px and (w[0] == 'r' or seed == 2):
                        continue
                    yield dict(d=d, seed=seed, h=h, tl=tl, px=px, w=list(w))


# ---------------------------------------------------------------- PyBullet
def _inertial(m):
    return f'<inertial><origin xyz="0 0 0"/><mass value="{m}"/><inertia ixx="0.02" ixy="0" ixz="0" iyy="0.02" iyz="0" izz="0.02"/></inertial>'


def _box(x, y, z, o='0 0 0'):
    return f'<collision><origin xyz="{o}"/><geometry><box size="{x} {y} {z}"/></geometry></collision>'


ARM = f'''<robot name="arm"><link name="base">{_inertial(1)}{_box(.2, .2, .1)}</link>
<joint name="turn" type="revolute"><parent link="base"/><child link="upper"/><origin xyz="0 0 .2"/><axis xyz="0 1 0"/><limit lower="-2.5" upper="2" effort="7" velocity="3"/></joint>
<link name="upper">{_inertial(.5)}{_box(.05, .05, .3, '0 0 .15')}</link>
<joint name="weld" type="fixed"><parent link="upper"/><child link="plate"/><origin xyz="0 .05 .1"/></joint>
<link name="plate">{_inertial(.1)}</link>
<joint name="extend" type="prismatic"><parent link="upper"/><child link="hand"/><origin xyz="0 0 .35"/><axis xyz="0 0 1"/><limit lower="-.1" upper=".4" effort="9" velocity="2"/></joint>
<link name="hand">{_inertial(.3)}{_box(.1, .1, .05)}</link></robot>'''
BALL = f'<robot name="ball"><link name="ballb">{_inertial(.2)}<collision><geometry><sphere radius=".1"/></geometry></collision></link></robot>'
SLAB = f'<robot name="slab"><link name="slabb">{_inertial(1)}{_box(4, 4, .1)}</link></robot>'
PF = {'arm.urdf': (ARM, dict(useFixedBase=True, basePosition=[0, 0, .3])),
      'ball.urdf': (BALL, dict(basePosition=[.6, 0, .16])),
      'slab.urdf': (SLAB, dict(useFixedBase=True, basePosition=[0, 0, 0]))}
PO = PyBulletObservationType
PSPEC = {'tp': ('turn', PO.JOINT_POS), 'tv': ('turn', PO.JOINT_VEL), 'ep': ('extend', PO.JOINT_POS), 'ev': ('extend', PO.JOINT_VEL),
         'bp': ('ball', PO.BODY_POS), 'bl': ('ball', PO.BODY_LIN_VEL), 'ba': ('ball', PO.BODY_ANG_VEL),
         'hp': ('hand', PO.LINK_POS), 'hl': ('hand', PO.LINK_LIN_VEL), 'pa': ('plate', PO.LINK_ANG_VEL), 'pp': ('plate', PO.LINK_POS),
         'c0': ('ball<->slab', PO.CONTACT_FLAG), 'c1': ('hand<->ball', PO.CONTACT_FLAG), 'c2': ('slab<->upper', PO.CONTACT_FLAG),
         'c3': ('arm<->upper', PO.CONTACT_FLAG), 'c4': ('hand<->slab', PO.CONTACT_FLAG), 'c5': ('upper<->hand', PO.CONTACT_FLAG)}
LINKS = {'upper': ('arm', 0), 'plate': ('arm', 1), 'hand': ('arm', 2)}
JOINTS = {'turn': ('arm', 0, -2.5, 2., 7., 3.), 'extend': ('arm', 2, -.1, .4, 9., 2.)}
PMODE = {'P': pybullet.POSITION_CONTROL, 'V': pybullet.VELOCITY_CONTROL, 'T': pybullet.TORQUE_CONTROL}


def urdf_dir():
    d = tempfile.mkdtemp(prefix='verif-c33-')
    _TMP.append(d)
    for n, (text, _) in PF.items():
        with open(os.path.join(d, n), 'w') as f:
            f.write(text)
    return d


class World:
    """The same world, driven directly."""

    def __init__(self, d, files, ts, selfc, vlim, start):
        self.c = BulletClient(connection_mode=pybullet.DIRECT)
        self.c.setTimeStep(ts)
        self.c.setGravity(0, 0, -9.81)
        self.id = {}
        for n in files:
            kw = dict(PF[n][1])
            if n == 'arm.urdf' and selfc:
                kw['flags'] = pybullet.URDF_USE_SELF_COLLISION | pybullet.URDF_USE_SELF_COLLISION_INCLUDE_PARENT
            i = self.c.loadURDF(os.path.join(d, n), **kw)
            self.id[n[:-5]] = i
            for j in range(self.c.getNumJoints(i)):
                self.c.setJointMotorControl2(i, j, pybullet.POSITION_CONTROL, force=0)
        if vlim:
            for i in self.id.values():
                for j in range(self.c.getNumJoints(i)):
                    self.c.changeDynamics(i, j, maxJointVelocity=self.c.getJointInfo(i, j)[11])
        if start is not None:
            self.place(start)
        self.c.performCollisionDetection()

    def place(self, start):
        self.c.resetJointState(self.id['arm'], 0, start[0])
        self.c.resetJointState(self.id['arm'], 2, start[1], .25)

    def joint(self, n):
        return self.id[JOINTS[n][0]], JOINTS[n][1]

    def body(self, n):
        return (self.id[LINKS[n][0]], LINKS[n][1]) if n in LINKS else (self.id[n], -1)

    def control(self, act, u):
        for (n, mode), x in zip(act, u):
            i, j = self.joint(n)
            if mode == 'T':
                self.c.setJointMotorControl2(i, j, pybullet.TORQUE_CONTROL, force=x)
            else:
                kw = {'targetPosition' if mode == 'P' else 'targetVelocity': x}
                self.c.setJointMotorControl2(i, j, PMODE[mode], maxVelocity=JOINTS[n][5], force=JOINTS[n][4], **kw)

    def read(self, k):
        n, t = PSPEC[k]
        if t in (PO.JOINT_POS, PO.JOINT_VEL):
            return [self.c.getJointState(*self.joint(n))[0 if t is PO.JOINT_POS else 1]]
        if t is PO.BODY_POS:
            a, b = self.c.getBasePositionAndOrientation(self.id[n])
            return list(a + b)
        if t in (PO.BODY_LIN_VEL, PO.BODY_ANG_VEL):
            return list(self.c.getBaseVelocity(self.id[n])[0 if t is PO.BODY_LIN_VEL else 1])
        if t is PO.CONTACT_FLAG:
            x, y = [self.body(m) for m in n.split('<->')]
            return [float(any({(p[1], p[3]), (p[2], p[4])} == {x, y} for p in self.c.getContactPoints()))]
        s = self.c.getLinkState(*self.body(n), computeLinkVelocity=1, computeForwardKinematics=1)
        return list(s[0] + s[1] if t is PO.LINK_POS else s[6] if t is PO.LINK_LIN_VEL else s[7])

    def obs(self, keys):
        return np.array([x for k in keys for x in self.read(k)])

    def close(self):
        self.c.disconnect()


class BulletEnv(PyBullet):
    def __init__(self, *a, **k):
        self.log = []
        self.start = None
        super().__init__(*a, **k)

    def _preprocess_action(self, action):
        self.log.append(('pre', np.array(action)))
        return action * .5

    def _step_init(self, state, action):
        self.log.append(('init', state.copy(), np.array(action)))

    def _compute_action(self, state, action):
        self.log.append(('act', state.copy(), np.array(action)))
        return action + .125 * self.info.action_space.high

    def _simulation_pre_step(self):
        self.log.append(('before',))

    def _simulation_post_step(self):
        self.log.append(('after',))

    def _step_finalize(self):
        self.log.append(('end',))

    def reward(self, state, action, next_state, absorbing):
        self.log.append(('reward', state.copy(), np.array(action), next_state.copy(), absorbing))
        return float(np.sum(next_state)) - 2 * float(np.sum(state)) + float(absorbing)

    def is_absorbing(self, state):
        return bool(np.sum(np.round(state * 1e4)) % 2)

    def setup(self, state):
        self.log.append(('setup', state))
        if state is not None:
            i, j = self._indexer.joint_map['turn']
            self.client.resetJointState(i, j, state[0])
            i, j = self._indexer.joint_map['extend']
            self.client.resetJointState(i, j, state[1], .25)


class CustomEnv(BulletEnv):
    """The ball is loaded by the hook for further models."""
    path = None

    def _custom_load_models(self):
        return {'ball': self._load_model(self.path, PF['ball.urdf'][1])}

    def _modify_mdp_info(self, mdp_info):
        mdp_info.gamma = .5
        return mdp_info

    def _create_observation(self, state):
        return np.concatenate([state, [7.]])


@scratch
def run_bullet(case, st):
    keys, act = case['k'], case['act']
    nb = np.array_equal
    d = urdf_dir()
    files = case['files']
    custom = case['custom']
    ts, nint = case['ts'], case['n']
    env_files = {}
    for n in files:
        kw = dict(PF[n][1])
        if n == 'arm.urdf' and case['self']:
            kw['flags'] = pybullet.URDF_USE_SELF_COLLISION | pybullet.URDF_USE_SELF_COLLISION_INCLUDE_PARENT
        env_files[os.path.join(d, n)] = kw
    order = list(files)
    cls = BulletEnv
    if custom:
        env_files.pop(os.path.join(d, 'ball.urdf'))
        order = [n for n in files if n != 'ball.urdf'] + ['ball.urdf']
        cls = CustomEnv
        CustomEnv.path = os.path.join(d, 'ball.urdf')
    env = cls(env_files, [(n, PMODE[m]) for n, m in act], [PSPEC[k] for k in keys], .9, 12, timestep=ts, n_intermediate_steps=nint,
              enforce_joint_velocity_limits=case['vlim'])
    world = None

    def fresh(start=None):
        nonlocal world
        if world is not None:
            world.close()
        world = World(d, order, ts, case['self'], case['vlim'], start)

    fresh()
    try:
        # what is announced
        lo, hi = [], []
        for n, m in act:
            j = JOINTS[n]
            a, b = (j[2], j[3]) if m == 'P' else (-j[5], j[5]) if m == 'V' else (-j[4], j[4])
            lo.append(a)
            hi.append(b)
        sp = env.info.action_space
        expect(nb(sp.low, np.array(lo, dtype=sp.low.dtype)) and nb(sp.high, np.array(hi, dtype=sp.high.dtype)), 'action limits', sp.low, sp.high)
        lo, hi, at, pos = [], [], {}, 0
        for k in keys:
            n, t = PSPEC[k]
            size = len(world.read(k))
            at[k] = list(range(pos, pos + size))
            pos += size
            if t is PO.JOINT_POS:
                lo.append(JOINTS[n][2])
                hi.append(JOINTS[n][3])
            elif t is PO.JOINT_VEL:
                lo.append(-JOINTS[n][5])
                hi.append(JOINTS[n][5])
            elif t is PO.CONTACT_FLAG:
                lo.append(0.)
                hi.append(1.)
            else:
                lo += [-np.inf] * size
                hi += [np.inf] * size
        sp = env.info.observation_space
        expect(nb(sp.low, np.array(lo, dtype=sp.low.dtype)) and nb(sp.high, np.array(hi, dtype=sp.high.dtype)), 'observation limits', sp.low, sp.high)
        expect(env.info.gamma == (.5 if custom else .9) and env.info.horizon == 12 and np.isclose(env.info.dt, ts * nint) and np.isclose(env.dt, ts * nint), 'info')
        prev = None

        def see(o, start=False):
            nonlocal prev
            want = world.obs(keys)
            st.state(np.round(want, 7).tobytes())
            exp = np.concatenate([want, [7.]]) if custom else want
            expect(o.shape == exp.shape and np.allclose(o, exp, atol=1e-7), 'observation', o.tolist(), 'simulator', exp.tolist(), 'keys', keys)
            for k in keys:
                expect(nb(env.get_sim_state(o, *PSPEC[k]), o[at[k]]) and list(env.get_sim_state_index(*PSPEC[k])) == at[k], 'entry', k)
            ps = [at[k][0] for k in keys if PSPEC[k][1] is PO.JOINT_POS]
            vs = [at[k][0] for k in keys if PSPEC[k][1] is PO.JOINT_VEL]
            expect(nb(env.joints.positions(o), o[ps]) and nb(env.joints.velocities(o), o[vs]), 'joint entries')
            a, b = env.joints.limits()
            expect(nb(a, np.array(lo)[ps]) and nb(b, np.array(hi)[ps]) and nb(env.joints.velocity_limits(), np.array(hi)[vs]), 'joint limits')
            prev = want

        for op in case['w']:
            st.step()
            env.log.clear()
            if op in ('r', 's', 'z'):
                start = None if op == 'r' else [.5, .2] if op == 's' else [1.9, .1]
                o, info = env.reset(None if start is None else np.array(start))
                fresh(start)
                expect(info == {}, 'info')
                expect(len(env.log) == 1 and env.log[0][0] == 'setup' and (env.log[0][1] is None) == (start is None), 'setup')
                see(o, True)
                o += 5              # what the caller does with an observation is his business
                continue
            if prev is None:
                env.reset()
                fresh()
                prev = world.obs(keys)
                env.log.clear()
            half = .5 * np.array(case['u'][op])
            ctrl = half + .125 * np.array(env.info.action_space.high)
            o, r, ab, info = env.step(np.array(case['u'][op]))
            log = list(env.log)
            states = [prev]
            for _ in range(nint):
                world.control(act, ctrl)
                world.c.stepSimulation()
                states.append(world.obs(keys))
            want = ['pre', 'init'] + ['act', 'before', 'after'] * nint + ['end', 'reward']
            expect([e[0] for e in log] == want, 'order of the hooks', [e[0] for e in log])
            expect(nb(log[0][1], np.array(case['u'][op])), 'action given to the hook')
            cl = lambda a, b: np.allclose(a, b, atol=1e-7)
            expect(cl(log[1][1], prev) and cl(log[1][2], half), 'start of the step', log[1])
            for i in range(nint):
                e = log[2 + 3 * i]
                expect(cl(e[1], states[i]) and cl(e[2], half), 'intermediate step', i, 'state', e[1], 'expected', states[i])
            e = log[-1]
            expect(cl(e[1], prev) and cl(e[2], half) and cl(e[3], states[-1]), 'transition given to the reward', e, 'expected', prev, states[-1])
            expect(bool(ab) == bool(e[4]) == env.is_absorbing(e[3]) and r == float(np.sum(e[3])) - 2 * float(np.sum(e[1])) + float(e[4]) and info == {}, 'result', r, ab)
            see(o)
            o += 5
        st.trace()
        st.outcome(repr([len(case['w']), case['k'], bool(world.read('c0')[0])]))
    finally:
        world.close()
        env.client.disconnect()
        env._client._client = -1


def bullet_cases(tier):
    th = tier != 'quick'
    words = [list(w) for w in itertools.product(['r', 's', 'z', 0, 1], repeat=4 if th else 3)]
    base = dict(files=['arm.urdf', 'ball.urdf', 'slab.urdf'], custom=False, ts=1 / 60, n=2, self=False, vlim=False)
    allk = list(PSPEC)
    for w in words:
        for act, u in (([['turn', 'T'], ['extend', 'P']], [[9., .2], [-6., -.3]]), ([['extend', 'V'], ['turn', 'P']], [[1., .6], [-2., 1.8]]),
                       ([['turn', 'V']], [[2.], [-3.]])):
            yield dict(base, k=allk, act=act, u=u, w=w, self=len(act) == 1)
    # contacts and other configurations, with long runs
    u = [[9., .2], [-6., -.3]]
    act = [['turn', 'T'], ['extend', 'T']]
    for files in itertools.permutations(base['files']):
        for custom, ts, n, sf, vl in itertools.product((False, True), (1 / 240, 1 / 50), (1, 3), (False, True), (False, True)):
            yield dict(files=list(files), custom=custom, ts=ts, n=n, self=sf, vlim=vl, k=allk[::-1], act=act, u=u, w=['r'] + [0] * 6 + ['r', 1, 's'] + [1, 0] * (6 if th else 3))
            yield dict(files=list(files), custom=custom, ts=ts, n=n, self=sf, vlim=vl, k=allk, act=act, u=u, w=['z'] + [0] * 12 + ['r', 1])
    for k in itertools.permutations(allk, 2):
        yield dict(base, k=list(k), act=act, u=u, w=['s', 0, 1, 'r', 1])
    if th:
        for k in itertools.permutations(allk, 3):
            yield dict(base, k=list(k), act=act, u=u, w=['z', 0, 1, 'r', 0])


FAMILIES = [
    Family('observation_helper', helper_cases, run_helper, 'every ordered selection of at most 2 (3) of 12 observed quantities x removals of components in every '
           'order x added entries before and after', chunk=200),
    Family('mujoco', mujoco_cases, run_mujoco, 'every word of 3 (4) steps, resets and resets to a state x observed quantities x actuators x control '
           'periods x open and closed loop, caller overwrites what it was given', chunk=100),
    Family('mujoco_data', data_cases, run_data, 'every word of at most 4 (5) steps, resets and writes; all quantities and all pairs of collision groups read after each', chunk=50),
    Family('multi_mujoco', multi_cases, run_multi, 'every word of 3 (4) steps and resets x 1-3 models x every random choice of the model', chunk=20),
    Family('multi_mujoco_models', multi_bad_cases, run_multi_bad, 'equal and different limits; identities of up to 69 models'),
    Family('gym', gym_cases, run_gym, 'every word of 4 (5) steps and resets x observation and action kinds x time limit x wrappers x horizon x termination scripts', chunk=100),
    Family('gym_state', gym_state_cases, run_gym_state, 'resets to given states: every action word of length 3 (5) on two gym environments', chunk=20),
    Family('atari', atari_cases, run_atari, 'every emulator script of length 4 (5) over {nothing, life lost, game over} x frame skipping x pooling x history x lives x '
           'fire x every number of no-ops', chunk=50),
    Family('dm_control', dm_cases, run_dm, 'every word of 4 (6) steps and resets on dm_control tasks, state and pixels, across the time limit of the task', chunk=10),
    Family('pybullet', bullet_cases, run_bullet, 'every word of 3 (4) steps and resets to three states x control modes with all 17 quantities observed; every load order x time '
           'steps x self collision x velocity limits on longer runs; every ordered pair (triple) of quantities', chunk=10),
]
