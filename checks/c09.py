"""C09: an object saved at any point of its history, reloaded and used further, against the one that was never saved."""
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np
import torch
import torch.nn.functional as F
from sklearn.exceptions import NotFittedError

from mushroom_rl.algorithms.actor_critic import A2C, COPDAC_Q, DDPG, PPO, SAC, TD3, TRPO, StochasticAC, StochasticAC_AVG
from mushroom_rl.algorithms.actor_critic.deep_actor_critic import PPO_BPTT
from mushroom_rl.algorithms.policy_search import GPOMDP, MORE, PGPE, REINFORCE, REPS, RWR, ConstrainedREPS, eNAC
from mushroom_rl.algorithms.policy_search.black_box_optimization import ePPO
from mushroom_rl.algorithms.value import (DQN, FQI, LSPI, SARSA, AveragedDQN, BoostedFQI, CategoricalDQN, DoubleDQN, DoubleFQI,
                                          DoubleQLearning, DuelingDQN, ExpectedSARSA, MaxminDQN, MaxminQLearning, NoisyDQN, QLambda,
                                          QLearning, QuantileDQN, RLearning, RQLearning, Rainbow, SARSALambda,
                                          SARSALambdaContinuous, SpeedyQLearning, TrueOnlineSARSALambda, WeightedQLearning)
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy
from mushroom_rl.algorithms.policy_search.black_box_optimization.context_builder import ContextBuilder
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.parametric import CMAC
from mushroom_rl.approximators.table import Table
from mushroom_rl.core import Agent, AgentInfo, Core, Dataset, DatasetInfo, Environment, MDPInfo, Serializable, VectorizedDataset
from mushroom_rl.core.extra_info import ExtraInfo
from mushroom_rl.distributions import (CholeskyGaussianTorchDistribution, DiagonalGaussianTorchDistribution, GaussianCholeskyDistribution,
                                       GaussianDiagonalDistribution, GaussianDistribution)
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.policy import (Boltzmann, BoltzmannTorchPolicy, ClippedGaussianPolicy, DeterministicPolicy, DiagonalGaussianPolicy, EpsGreedy,
                                GaussianPolicy, GaussianTorchPolicy, Mellowmax, OrnsteinUhlenbeckPolicy, StateLogStdGaussianPolicy,
                                StateStdGaussianPolicy)
from mushroom_rl.policy import RecurrentGaussianTorchPolicy, VectorPolicy
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory, SequenceReplayMemory
from mushroom_rl.rl_utils.running_stats import RunningAveragedWindow, RunningExpWeightedAverage, RunningStandardization
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.rl_utils.variance_parameters import VarianceDecreasingParameter, VarianceIncreasingParameter, WindowedVarianceIncreasingParameter
from checks.c03 import FLAGS, conv, make_info, trans
from checks.c04 import entry
from checks.c06 import dataset, mdp, transition
from mc.harness import Family, expect

warnings.filterwarnings('ignore')
np.seterr(all='ignore')
ASSUMPTIONS = ['the random generators are set to the same state before the original and the reloaded object go on: generator states are not saved',
               'an interrupted run goes on as a new run: the environment and the episode start anew',
               'networks, losses, features and policies given by the user can be pickled']


class World(Environment):
    """Small noisy world; the outcome depends on state, action and the random numbers."""

    def __init__(self, ds, da, horizon=3):
        self.ds, self.da = ds, da
        obs = Discrete(3) if ds else Box(-2., 2., shape=(2,))
        act = Discrete(2) if da else Box(-1., 1., shape=(2,))
        super().__init__(MDPInfo(obs, act, .9, horizon))

    def obs(self):
        return np.array([int(abs(self.x[0]) * 100) % 3]) if self.ds else self.x.copy()

    def reset(self, state=None):
        self.x = np.random.uniform(-1, 1, 2) if state is None else np.array(state, float)
        return self.obs(), {}

    def step(self, action):
        a = float(action[0]) if self.da else action
        self.x = np.clip(.6 * self.x + .3 * a + np.random.uniform(-.4, .4, 2), -2, 2)
        return self.obs(), float(self.x.sum() + .1 * np.sum(a)), bool(np.random.uniform() < .15), {}


class Net(torch.nn.Module):
    def __init__(self, input_shape, output_shape, n_features=3, **kw):
        super().__init__()
        self.l1 = torch.nn.Linear(input_shape[-1], 3)
        self.l2 = torch.nn.Linear(3, output_shape[0])

    def forward(self, s, a=None):
        y = self.l2(torch.tanh(self.l1(s.float())))
        return y if a is None else torch.gather(y, 1, a.long()).reshape(-1)


class Feat(torch.nn.Module):
    def __init__(self, input_shape, output_shape, n_features=3, **kw):
        super().__init__()
        self.l = torch.nn.Linear(input_shape[-1], n_features)

    def forward(self, s):
        return torch.tanh(self.l(s.float()))


class Lin(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.l = torch.nn.Linear(input_shape[-1], output_shape[0])

    def forward(self, s):
        return self.l(s.float())


class Critic(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.l1 = torch.nn.Linear(input_shape[-1], 4)
        self.l2 = torch.nn.Linear(4, 1)

    def forward(self, s, a):
        return self.l2(torch.tanh(self.l1(torch.cat((s.float(), a.float()), 1)))).reshape(-1)


class RecV(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.l = torch.nn.Linear(input_shape[-1], output_shape[0])

    def forward(self, s, h, lengths):
        out = []
        for i in range(len(s)):
            x = self.l(h[i].reshape(-1)[:1].float().repeat(s.shape[-1]))
            for j in range(int(lengths[i])):
                x = torch.tanh(.5 * x + self.l(s[i, j].float()))
            out.append(x)
        return torch.stack(out)


class RecMu(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.v = RecV(input_shape, output_shape)

    def forward(self, s, h, lengths):
        y = self.v(s, h, lengths)
        return y, .5 * h + y[:, :1].detach().reshape(h.shape)


def adam(lr=.05, clip=False):
    d = {'class': torch.optim.Adam, 'params': {'lr': lr}}
    if clip:
        d['clipping'] = dict(method=torch.nn.utils.clip_grad_norm_, params=dict(max_norm=.2))
    return d


def rate(kind, size=(3, 2)):
    return {'const': lambda: Parameter(.3), 'lin': lambda: LinearParameter(.6, .1, 9, size=size), 'decay': lambda: DecayParameter(.8, .6, size=size),
            'decmin': lambda: DecayParameter(.8, 1., min_value=.3, size=size),
            'vinc': lambda: VarianceIncreasingParameter(value=.8, size=size, tol=.5),
            'vdec': lambda: VarianceDecreasingParameter(value=.8, size=size, tol=2., exponential=True),
            'vwin': lambda: WindowedVarianceIncreasingParameter(value=.8, size=size, tol=.5, window=3)}[kind]()


def td_policy(kind):
    return {'eps': lambda: EpsGreedy(Parameter(.3)), 'rand': lambda: EpsGreedy(Parameter(1.)), 'epsdec': lambda: EpsGreedy(DecayParameter(.9, .5, size=(3,))),
            'boltz': lambda: Boltzmann(LinearParameter(.5, 2., 10)), 'mellow': lambda: Mellowmax(Parameter(2.))}[kind]()


def td(cls, r='decay', pol='epsdec', **kw):
    w = World(True, True)
    return cls(w.info, td_policy(pol), rate(r), **kw)


def lin_features():
    return Features(tilings=Tiles.generate(2, [2, 2], [-2., -2.], [2.1, 2.1], uniform=True))


def tdc(cls, r='const'):
    w = World(False, True)
    phi = lin_features()
    return cls(w.info, td_policy('eps'), LinearApproximator if cls is SARSALambdaContinuous else rate(r),
               *((rate(r),) if cls is SARSALambdaContinuous else ()), lambda_coeff=.7,
               approximator_params=dict(input_shape=(phi.size,), output_shape=(2,), n_actions=2, phi=phi))


def dqn(cls, mem=None, pol='eps', batch=2, **kw):
    w = World(False, True)
    d = cls in (DuelingDQN, CategoricalDQN, NoisyDQN, QuantileDQN, Rainbow)
    p = dict(network=Feat if d else Net, optimizer=adam(), loss=None if cls in (CategoricalDQN, Rainbow, QuantileDQN) else F.smooth_l1_loss,
             input_shape=(2,), output_shape=(2,), n_actions=2, n_features=3)
    if mem == 'prio':
        kw['replay_memory'] = dict(**{'class': PrioritizedReplayMemory}, params=dict(alpha=.6, beta=LinearParameter(.4, 1., 20)))
    if cls is Rainbow:
        kw.update(alpha_coeff=.6, beta=LinearParameter(.4, 1., 20))
    elif True:
        pass
    kw.update(dict(n_atoms=3, v_min=-3, v_max=3) if cls in (CategoricalDQN, Rainbow) else {})
    if cls is QuantileDQN:
        kw.update(n_quantiles=3)
    if cls is Rainbow:
        kw.update(n_steps_return=2)
    pre = kw.pop('pre', None)
    args = (w.info, td_policy(pol)) + (() if d else (NumpyTorchApproximator,))
    agent = cls(*args, approximator_params=p, batch_size=batch, initial_replay_size=3, max_replay_size=6, target_update_frequency=2, **kw)
    if pre:
        agent.add_core_preprocessor(StandardizationPreprocessor(w.info, 'numpy'))
    return agent


def batch(cls, **kw):
    w = World(False, True)
    n_it = 2
    if cls is LSPI:
        phi = Features(basis_list=[PolynomialBasis()])
        return cls(w.info, td_policy('eps'), approximator_params=dict(input_shape=(phi.size,), output_shape=(2,), n_actions=2, phi=phi),
                   epsilon=1e-2)
    kind = kw.pop('kind', 'trees')
    if kind == 'trees':
        from sklearn.ensemble import ExtraTreesRegressor
        ap, p = ExtraTreesRegressor, dict(input_shape=(2,), n_actions=2, n_models=n_it if cls is BoostedFQI else 1, n_estimators=2)
    else:
        from sklearn.linear_model import LinearRegression
        ap, p = LinearRegression, dict(input_shape=(2,), n_actions=2, n_models=n_it if cls is BoostedFQI else 1)
    return cls(w.info, td_policy('rand'), ap, approximator_params=p, n_iterations=n_it, quiet=True, **kw)


def critic_params(lr=.05):
    return dict(network=Net, optimizer=adam(lr), loss=F.mse_loss, input_shape=(2,), output_shape=(1,))


def onpol(cls, pol='gauss', pre=False, clip=False):
    w = World(False, pol == 'boltz')
    if pol == 'boltz':
        policy = BoltzmannTorchPolicy(Net, (2,), (2,), beta=Parameter(.7))
    elif pol == 'rec':
        policy = RecurrentGaussianTorchPolicy(policy_state_shape=(1,), network=RecMu, input_shape=(2,), output_shape=(2,), std_0=.5,
                                              log_std_min=-.8, log_std_max=-.6)
    else:
        policy = GaussianTorchPolicy(Net, (2,), (2,), std_0=.5)
    if cls is A2C:
        ag = A2C(w.info, policy, adam(clip=clip), critic_params(), ent_coeff=.01, max_grad_norm=.5)
    elif cls is PPO:
        ag = PPO(w.info, policy, adam(clip=clip), critic_params(), n_epochs_policy=2, batch_size=2, eps_ppo=.2, lam=.9, ent_coeff=.01)
    elif cls is TRPO:
        ag = TRPO(w.info, policy, critic_params(), max_kl=.05, lam=.9)
    else:
        cp = dict(critic_params(), network=RecV)
        ag = PPO_BPTT(w.info, policy, adam(clip=clip), cp, n_epochs_policy=2, batch_size=2, eps_ppo=.2, lam=.9, dim_env_state=2,
                      truncation_length=2)
    if pre:
        ag.add_agent_preprocessor(StandardizationPreprocessor(w.info, backend='torch'))
    return ag


def offpol(cls, pol='ou', clip=False, pre=False, warm=4):
    w = World(False, False)
    ap = dict(network=Net, input_shape=(2,), output_shape=(2,))
    cp = dict(network=Critic, optimizer=adam(), loss=F.mse_loss, input_shape=(4,), output_shape=(1,))
    if cls is SAC:
        ag = SAC(w.info, dict(ap), dict(ap), adam(clip=clip), cp, 2, 3, 6, warm, .3, 3e-2)
    else:
        pc, pp = ((OrnsteinUhlenbeckPolicy, dict(sigma=torch.ones(2) * .3, theta=.15, dt=1e-1)) if pol == 'ou' else
                  (ClippedGaussianPolicy, dict(sigma=torch.eye(2) * .3, low=torch.tensor([-.5, -.5]), high=torch.tensor([.5, .5]))))
        kw = dict(policy_delay=2) if cls is TD3 else {}
        ag = cls(w.info, pc, pp, ap, adam(clip=clip), cp, 2, 3, 6, .3, **kw)
    if pre:
        ag.add_core_preprocessor(MinMaxPreprocessor(w.info, 'numpy'))
    return ag


def lin(shape_in=(2,), phi=None, w=None):
    r = Regressor(LinearApproximator, input_shape=(phi.size,) if phi is not None else shape_in, output_shape=(2,), **(dict(phi=phi) if phi else {}))
    r.set_weights(np.linspace(-.5, .4, r.weights_size) if w is None else w * np.ones(r.weights_size))
    return r


def classic(cls, r='const', pol=None):
    w = World(False, False)
    phi = lin_features()
    if cls is COPDAC_Q:
        mu = lin(phi=phi)
        return cls(w.info, GaussianPolicy(mu, .3 * np.eye(2)), mu, rate(r, (1,)), rate(r, (1,)), rate(r, (1,)), value_function_features=phi)
    policy = StateLogStdGaussianPolicy(lin(phi=phi), lin(phi=phi, w=-.3))
    if cls is StochasticAC:
        return cls(w.info, policy, rate(r, (1,)), rate(r, (1,)), lambda_par=.5, value_function_features=phi)
    return cls(w.info, policy, rate(r, (1,)), rate(r, (1,)), rate(r, (1,)), lambda_par=.5, value_function_features=phi)


def opt(k):
    return {'sgd': lambda: SGDOptimizer(lr=DecayParameter(.05, .5)), 'adam': lambda: AdamOptimizer(lr=.05, beta1=.8, beta2=.9, eps=1e-2),
            'adaptive': lambda: AdaptiveOptimizer(eps=.02)}[k]()


def pgrad(cls, o='adam', pol='std'):
    w = World(False, False)
    policy = {'std': lambda: StateStdGaussianPolicy(lin(), lin(w=.7)), 'logstd': lambda: StateLogStdGaussianPolicy(lin(), lin(w=-.3)),
              'diag': lambda: DiagonalGaussianPolicy(lin(), .3 * np.ones(2)), 'fixed': lambda: GaussianPolicy(lin(), .3 * np.eye(2))}[pol]()
    return cls(w.info, policy, opt(o))


def bbo(cls, d='diag', **kw):
    w = World(False, False)
    if cls is ePPO:
        policy = DeterministicPolicy(Regressor(TorchApproximator, input_shape=(2,), output_shape=(2,), network=Lin))
    else:
        policy = DeterministicPolicy(lin())
    n = policy.weights_size
    mu = np.linspace(-.5, .5, n)
    t = torch.tensor
    D = {'diag': lambda: GaussianDiagonalDistribution(mu, .5 * np.ones(n)), 'fixed': lambda: GaussianDistribution(mu, .5 * np.eye(n)),
         'chol': lambda: GaussianCholeskyDistribution(mu, .5 * np.eye(n)),
         'tdiag': lambda: DiagonalGaussianTorchDistribution(t(mu).float(), .5 * torch.ones(n)),
         'tchol': lambda: CholeskyGaussianTorchDistribution(t(mu).float(), .5 * torch.eye(n))}[d]()
    if cls is PGPE:
        return cls(w.info, D, policy, opt(kw.pop('o', 'adam')))
    if cls is RWR:
        return cls(w.info, D, policy, beta=LinearParameter(.5, 1., 5))
    if cls is REPS:
        return cls(w.info, D, policy, eps=.5)
    if cls is ConstrainedREPS:
        return cls(w.info, D, policy, eps=.5, kappa=.3)
    if cls is MORE:
        return cls(w.info, D, policy, eps=.5)
    return ePPO(w.info, D, policy, adam(), 2, 2, .2, ent_coeff=.01)


STEP = dict(n_steps=8, n_steps_per_fit=1)
STEP3 = dict(n_steps=9, n_steps_per_fit=3)
EPI = dict(n_episodes=4, n_episodes_per_fit=2)
EPI3 = dict(n_episodes=6, n_episodes_per_fit=3)
EPI9 = dict(n_episodes=20, n_episodes_per_fit=10)
MOREP = dict(n_episodes=40, n_episodes_per_fit=20)

# name: (builder, discrete state, discrete action, how it learns)
AGENTS = {
    'QLearning': (lambda: td(QLearning), 1, 1, STEP),
    'RQLearning/vinc': (lambda: td(RQLearning, 'lin', 'boltz', beta=rate('vinc')), 1, 1, STEP),
    'RQLearning/vdec': (lambda: td(RQLearning, 'lin', 'eps', beta=rate('vdec')), 1, 1, STEP),
    'RQLearning/vwin': (lambda: td(RQLearning, 'decmin', 'eps', delta=rate('vwin')), 1, 1, STEP),
    'QLearning/mellow': (lambda: td(QLearning, 'lin', 'mellow'), 1, 1, STEP),
    'DoubleQLearning': (lambda: td(DoubleQLearning), 1, 1, STEP),
    'WeightedQLearning': (lambda: td(WeightedQLearning, precision=7), 1, 1, STEP),
    'MaxminQLearning': (lambda: td(MaxminQLearning, n_tables=2), 1, 1, STEP),
    'SpeedyQLearning': (lambda: td(SpeedyQLearning, 'decay', 'boltz'), 1, 1, STEP),
    'SARSA': (lambda: td(SARSA), 1, 1, STEP),
    'ExpectedSARSA': (lambda: td(ExpectedSARSA, 'lin', 'boltz'), 1, 1, STEP),
    'SARSALambda': (lambda: td(SARSALambda, lambda_coeff=.7), 1, 1, STEP),
    'SARSALambda/accumulating': (lambda: td(SARSALambda, lambda_coeff=LinearParameter(.9, .1, 9), trace='accumulating'), 1, 1, STEP),
    'QLambda': (lambda: td(QLambda, lambda_coeff=.7), 1, 1, STEP),
    'QLambda/accumulating': (lambda: td(QLambda, lambda_coeff=.7, trace='accumulating'), 1, 1, STEP),
    'RLearning': (lambda: td(RLearning, beta=rate('decay')), 1, 1, STEP),
    'RQLearning': (lambda: td(RQLearning, beta=rate('decay')), 1, 1, STEP),
    'RQLearning/on': (lambda: td(RQLearning, beta=rate('lin'), off_policy=False), 1, 1, STEP),
    'RQLearning/delta': (lambda: td(RQLearning, delta=rate('decay')), 1, 1, STEP),
    'SARSALambdaContinuous': (lambda: tdc(SARSALambdaContinuous), 0, 1, STEP),
    'TrueOnlineSARSALambda': (lambda: tdc(TrueOnlineSARSALambda), 0, 1, STEP),
    'DQN': (lambda: dqn(DQN), 0, 1, STEP3),
    'DQN/prioritized': (lambda: dqn(DQN, 'prio', 'boltz'), 0, 1, STEP3),
    'DQN/preprocessor': (lambda: dqn(DQN, pre=True, batch=Parameter(2)), 0, 1, STEP3),
    'DQN/fitparams': (lambda: dqn(DQN, fit_params=dict(n_epochs=2), clip_reward=True), 0, 1, STEP3),
    'DoubleDQN': (lambda: dqn(DoubleDQN, 'prio'), 0, 1, STEP3),
    'AveragedDQN': (lambda: dqn(AveragedDQN, n_approximators=2), 0, 1, STEP3),
    'MaxminDQN': (lambda: dqn(MaxminDQN, n_approximators=2), 0, 1, STEP3),
    'DuelingDQN': (lambda: dqn(DuelingDQN), 0, 1, STEP3),
    'CategoricalDQN': (lambda: dqn(CategoricalDQN), 0, 1, STEP3),
    'NoisyDQN': (lambda: dqn(NoisyDQN), 0, 1, STEP3),
    'QuantileDQN': (lambda: dqn(QuantileDQN), 0, 1, STEP3),
    'Rainbow': (lambda: dqn(Rainbow), 0, 1, STEP3),
    'FQI': (lambda: batch(FQI), 0, 1, STEP3),
    'FQI/linear': (lambda: batch(FQI, kind='lin'), 0, 1, STEP3),
    'DoubleFQI': (lambda: batch(DoubleFQI), 0, 1, dict(n_steps=12, n_steps_per_fit=6)),
    'BoostedFQI': (lambda: batch(BoostedFQI), 0, 1, dict(n_steps=6, n_steps_per_fit=6)),
    'LSPI': (lambda: batch(LSPI), 0, 1, dict(n_steps=12, n_steps_per_fit=6)),
    'A2C': (lambda: onpol(A2C), 0, 0, STEP3),
    'A2C/boltzmann': (lambda: onpol(A2C, 'boltz', clip=True), 0, 1, STEP3),
    'PPO': (lambda: onpol(PPO), 0, 0, STEP3),
    'PPO/preprocessor': (lambda: onpol(PPO, pre=True, clip=True), 0, 0, STEP3),
    'PPO/boltzmann': (lambda: onpol(PPO, 'boltz'), 0, 1, STEP3),
    'TRPO': (lambda: onpol(TRPO), 0, 0, STEP3),
    'PPO_BPTT': (lambda: onpol(PPO_BPTT, 'rec'), 0, 0, STEP3),
    'DDPG': (lambda: offpol(DDPG), 0, 0, STEP3),
    'DDPG/gauss': (lambda: offpol(DDPG, 'gauss', clip=True, pre=True), 0, 0, STEP3),
    'TD3': (lambda: offpol(TD3), 0, 0, STEP),
    'TD3/gauss': (lambda: offpol(TD3, 'gauss', clip=True), 0, 0, STEP3),
    'SAC': (lambda: offpol(SAC), 0, 0, STEP3),
    'SAC/clip': (lambda: offpol(SAC, clip=True, pre=True, warm=2), 0, 0, STEP3),
    'COPDAC_Q': (lambda: classic(COPDAC_Q), 0, 0, STEP),
    'COPDAC_Q/decay': (lambda: classic(COPDAC_Q, 'decay'), 0, 0, STEP3),
    'StochasticAC': (lambda: classic(StochasticAC), 0, 0, STEP),
    'StochasticAC_AVG': (lambda: classic(StochasticAC_AVG, 'decay'), 0, 0, STEP),
    'REINFORCE': (lambda: pgrad(REINFORCE), 0, 0, EPI3),
    'REINFORCE/logstd': (lambda: pgrad(REINFORCE, 'sgd', 'logstd'), 0, 0, EPI3),
    'GPOMDP': (lambda: pgrad(GPOMDP, 'sgd', 'diag'), 0, 0, EPI3),
    'GPOMDP/adaptive': (lambda: pgrad(GPOMDP, 'adaptive', 'fixed'), 0, 0, EPI3),
    'eNAC': (lambda: pgrad(eNAC, 'adam', 'diag'), 0, 0, EPI3),
    'RWR': (lambda: bbo(RWR), 0, 0, EPI3),
    'RWR/chol': (lambda: bbo(RWR, 'chol'), 0, 0, EPI9),
    'REPS': (lambda: bbo(REPS), 0, 0, EPI3),
    'REPS/fixed': (lambda: bbo(REPS, 'fixed'), 0, 0, EPI3),
    'ConstrainedREPS': (lambda: bbo(ConstrainedREPS), 0, 0, EPI3),
    'MORE': (lambda: bbo(MORE, 'chol'), 0, 0, MOREP),
    'PGPE': (lambda: bbo(PGPE), 0, 0, EPI3),
    'PGPE/adaptive': (lambda: bbo(PGPE, 'chol', o='adaptive'), 0, 0, EPI3),
    'ePPO': (lambda: bbo(ePPO, 'tdiag'), 0, 0, EPI3),
    'ePPO/chol': (lambda: bbo(ePPO, 'tchol'), 0, 0, EPI3),
}


class Interrupt(Exception):
    pass


def arr(x):
    if x is None:
        return None
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().numpy()
    return np.array(x, dtype=float)


def seed(k):
    np.random.seed(k)
    torch.manual_seed(k)


def probe(agent):
    """Numbers any user can ask the agent for."""
    out = []
    keep = np.random.get_state(), torch.get_rng_state()
    seed(9)
    p = agent.policy
    if hasattr(p, 'get_weights'):
        out.append(('policy weights', arr(p.get_weights())))
    if hasattr(agent, 'distribution'):
        out.append(('distribution', arr(agent.distribution.get_parameters())))
    if hasattr(agent, 'Q') and hasattr(agent.Q, 'predict'):
        s = [np.array([i]) for i in range(3)] if isinstance(agent.mdp_info.observation_space, Discrete) else None
        if s is not None:
            out.append(('Q', arr([agent.Q.predict(x) for x in s])))
    for n in ('approximator', 'target_approximator'):
        a = getattr(agent, n, None)
        if a is not None:
            S = np.array([[.5, -1.], [0., .25], [1.5, 1.]])
            try:
                y = a.predict(S)
            except NotFittedError:
                y = None
                out.append((n, 'not fitted'))
            if y is not None:
                out.append((n, arr(y)))
    np.random.set_state(keep[0])
    torch.set_rng_state(keep[1])
    return out


def play(agent, name, point=None, k=1, learn=True):
    """One run; everything that can be seen of it. point: where it is interrupted."""
    b, ds, da, plan = AGENTS[name]
    seen = []
    n = [0, 0]

    def on_step(sample):
        n[0] += 1
        seen.append(tuple(arr(v) for v in sample[:6]))
        if point == 's%d' % n[0]:
            raise Interrupt()

    def on_fit(dataset):
        n[1] += 1
        seen.append(('fit', tuple(v for _, v in probe(agent))))
        if point == 'f%d' % n[1]:
            raise Interrupt()
    core = Core(agent, World(bool(ds), bool(da)), callbacks_fit=[on_fit], callback_step=on_step)
    seed(k)
    try:
        if learn:
            core.learn(quiet=True, **plan)
        else:
            core.evaluate(n_steps=6, quiet=True)
    except Interrupt:
        pass
    return seen, n


def same(a, b, where):
    if isinstance(a, (tuple, list)):
        expect(isinstance(b, (tuple, list)) and len(a) == len(b), where, len(a), 'against', len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '%s[%d]' % (where, i))
    elif a is None or b is None or isinstance(a, str):
        expect(type(a) is type(b) and (a is None or a == b), where, a, 'against', b)
    else:
        expect(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True), where, np.ravel(a)[:8], 'against', np.ravel(b)[:8])


def future(agent, name, once=False):
    if once:
        # this learner can be fitted only once
        return [('probe', probe(agent)), ('evaluate', play(agent, name, k=5, learn=False)[0]), ('learn', []), ('probe', probe(agent))]
    out = [('probe', probe(agent))]
    out.append(('evaluate', play(agent, name, k=5, learn=False)[0]))
    out.append(('learn', play(agent, name, k=6)[0]))
    out.append(('probe', probe(agent)))
    out.append(('evaluate', play(agent, name, k=7, learn=False)[0]))
    return out


class Files:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c09')
        self.n = 0
        return self

    def path(self):
        self.n += 1
        return os.path.join(self.d, 'sub', 'o%d' % self.n)

    def trip(self, obj, full=True, path=None):
        p = path or self.path()
        obj.save(p, full_save=full)
        return Serializable.load(p)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def reach(name, point):
    seed(0)
    agent = AGENTS[name][0]()
    if point != 'new':
        play(agent, name, point)
    return agent


def run_agent(case, st):
    name, point = case['a'], case['p']
    once = name == 'BoostedFQI' and (point[0] in 'fe' or point[0] == 's' and int(point[1:]) > 6)
    ref = future(reach(name, point), name, once)
    st.step(len(ref[2][1]))
    with Files() as f:
        orig = reach(name, point)
        p = f.path()
        state = np.random.get_state()[1].tolist(), torch.get_rng_state().tolist()
        orig.save(p, full_save=True)
        new = Agent.load(p)
        expect((np.random.get_state()[1].tolist(), torch.get_rng_state().tolist()) == state, 'saving and loading draw random numbers')
        expect(type(new) is type(orig), 'type', type(new))
        second = f.trip(new, path=p if case['same'] else None)
        third = f.trip(orig)
        # the reloaded objects go first: anything they share with the original shows up in it
        for who, a in (('reloaded', new), ('reloaded twice', second), ('original after saving', orig), ('reloaded later', third)):
            got = future(a, name, once)
            same(ref, got, who)
            st.step(len(got[2][1]))
        st.state(name, point, tuple(np.round(np.ravel(ref[3][1][0][1])[:6].astype(float), 6).tolist()) if ref[3][1] else ())
        # after having gone on: save once more
        last = f.trip(orig)
        same(future(f.trip(orig), name, name == 'BoostedFQI'), future(last, name, name == 'BoostedFQI'), 'two copies')
    st.outcome(name)
    st.trace()


def run_light(case, st):
    """A save without the bulky data: the agent behaves the same, and learning goes on with an empty memory."""
    name, point = case['a'], case['p']
    once = name == 'BoostedFQI' and (point[0] in 'fe' or point[0] == 's' and int(point[1:]) > 6)
    orig = reach(name, point)
    ref = [probe(orig), play(orig, name, k=5, learn=False)[0]]
    orig = reach(name, point)
    with Files() as f:
        p = f.path()
        orig.save(p)
        new, again = Agent.load(p), Agent.load(p)
        got = [probe(new), play(new, name, k=5, learn=False)[0]]
        same(ref, got, 'light save')
        a = play(new, name, k=6, learn=not once)[0], probe(new)
        play(again, name, k=5, learn=False)
        b = play(again, name, k=6, learn=not once)[0], probe(again)
        same(a, b, 'two light copies')
        same(ref, [probe(orig), play(orig, name, k=5, learn=False)[0]], 'original after a light save')
        if case['m']:
            # no memory: a light save is all there is
            same(future(reach(name, point), name, once), future(Agent.load(p), name, once), 'light save of an agent without memory')
    st.state(name, point)
    st.step(len(a[0]) + len(b[0]))
    st.trace()


MEMORY = {n for n in AGENTS if n.split('/')[0] in ('DQN', 'DoubleDQN', 'AveragedDQN', 'MaxminDQN', 'DuelingDQN', 'CategoricalDQN', 'NoisyDQN',
                                                   'QuantileDQN', 'Rainbow', 'DDPG', 'TD3', 'SAC')}


def points(name, tier):
    plan = AGENTS[name][3]
    if tier == 'quick':
        ss = [1, 2, 4, 7] if 'n_steps' in plan else [2, 5]
        fs = [1, 2]
    else:
        ss = range(1, 10)
        fs = range(1, 9 if plan is STEP else 4)
    return ['new'] + ['s%d' % i for i in ss] + ['f%d' % i for i in fs] + ['end']


def agent_cases(tier):
    for name in AGENTS:
        for p in points(name, tier):
            yield dict(a=name, p=p, same=0)
        yield dict(a=name, p='end', same=1)


def light_cases(tier):
    for name in AGENTS:
        for p in points(name, tier):
            yield dict(a=name, p=p, m=int(name not in MEMORY))


# ---------------------------------------------------------------- components, one operation at a time
def val(x):
    """Type and contents of anything a component returns."""
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, torch.Tensor):
        return ('torch', str(x.dtype)) + (x.detach().cpu().numpy().astype(float),)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return 'numpy', x.dtype.kind, x.astype(float)
    if isinstance(x, (int, float, np.number, np.bool_)):
        return np.array(float(x))
    if isinstance(x, dict):
        return tuple((str(k), val(x[k])) for k in sorted(x, key=str))
    if isinstance(x, (list, tuple, np.ndarray)):
        return tuple(val(y) for y in x)
    raise TypeError(type(x))


def memory_machine(kind, agent_backend, stateful, cap=4, **kw):
    def make():
        info = AgentInfo(False, (1,) if stateful else None, agent_backend)
        if kind == 'plain':
            m = ReplayMemory(mdp('numpy'), info, 2, cap)
        elif kind == 'seq':
            m = SequenceReplayMemory(mdp('numpy'), info, 2, cap, 2)
        else:
            m = PrioritizedReplayMemory(mdp('numpy'), info, 2, cap, .6, LinearParameter(.4, 1., 5), epsilon=.01)
        return [m, 0, None]

    def add(o, flags, n=1):
        seq = [transition(o[1] + i, f, stateful) for i, f in enumerate(flags)]
        o[1] += len(seq)
        ds = dataset(seq, 'numpy', stateful)
        if kind == 'prio':
            o[0].add(ds, np.array([1. + .5 * ((o[1] + i) % 3) for i in range(len(seq))]), n_steps_return=n, gamma=.5)
        elif kind == 'seq':
            o[0].add(ds)
        else:
            o[0].add(ds, n, .5)
        return look(o)

    def look(o):
        m = o[0]
        out = [m.initialized]
        out.append(m.max_priority if kind == 'prio' else m.size)
        return out

    def get(o):
        m = o[0]
        if not (m._tree.size if kind == 'prio' else m.size):
            return None
        b = m.get(2)
        if kind == 'prio':
            o[2] = b[-2]
        return look(o), list(b[:-2]) + [np.asarray(b[-2]), b[-1]] if kind == 'prio' else list(b)

    def update(o):
        if o[2] is None:
            return None
        o[0].update(np.array([.3, 2.]), o[2])
        return look(o)
    ops = {'add1': lambda o: add(o, [0]), 'add3': lambda o: add(o, [0, 1, 0]), 'get': get}
    if kind != 'seq':
        ops['addn'] = lambda o: add(o, [0, 0, 2], 2)
    if kind == 'prio':
        ops['update'] = update
    else:
        def reset(o):
            o[0].reset()
            return look(o)
        ops['reset'] = reset
    return make, ops, lambda o, f: f.trip(o[0])


def parameter_machine(build, table=False):
    def make():
        return [build(), 0]
    ops = {}
    for i in (0, 1):
        idx = (np.array([i]),) if table else ()
        kw = dict(target=.4 - i, factor=.3) if table == 'variance' else {}
        ops['call%d' % i] = lambda o, idx=idx, kw=kw: (o[0](*idx, **kw), o[0].get_value(*idx))
        if table == 'variance':
            ops['update%d' % i] = lambda o, idx=idx, i=i: o[0].update(*idx, target=(1. + i) * (-1) ** i * .7, factor=.5) or o[0].get_value(*idx)
        else:
            ops['update%d' % i] = lambda o, idx=idx: o[0].update(*idx) or o[0].get_value(*idx)
        if not table:
            break
    ops['shape'] = lambda o: list(o[0].shape)
    return make, ops


def optimizer_machine(build):
    def make():
        return [build(), np.array([.5, -1., 2.])]

    def step(o, g):
        o[1] = o[0](o[1], np.array(g))
        return o[1]

    nat = build().__class__ is AdaptiveOptimizer

    def natural(o, g):
        o[1] = o[0](o[1], np.array(g), np.array(g) * 2) if nat else o[0](o[1], np.array(g))
        return o[1]
    return make, {'g1': lambda o: step(o, [.3, -.2, .1]), 'g2': lambda o: step(o, [-1., 0., 2.]), 'g3': lambda o: natural(o, [0., .5, .25])}


def stats_machine(cls, backend, *args):
    to = (lambda x: torch.tensor(x, dtype=torch.float32)) if backend == 'torch' else np.array

    def make():
        return [cls((2,), *args, backend=backend) if backend != 'default' else cls((2,), *args)]

    def upd(o, x):
        o[0].update_stats(to([x]) if cls is RunningStandardization else to(x))
        return look(o)

    def look(o):
        out = [o[0].mean]
        if hasattr(o[0], 'std'):
            out.append(o[0].std)
        return out

    def reset(o):
        o[0].reset()
        return look(o) if not isinstance(o[0], RunningAveragedWindow) else None
    return make, {'a': lambda o: upd(o, [1., 2.]), 'b': lambda o: upd(o, [-3., .5]), 'c': lambda o: upd(o, [.25, 100.]), 'reset': reset}


def pre_machine(cls, backend):
    to = (lambda x: torch.tensor(x, dtype=torch.float32)) if backend == 'torch' else np.array
    info = MDPInfo(Box(np.array([-1., -np.inf]), np.array([3., np.inf])), Discrete(2), .9, 10, backend=backend)

    def make():
        return [cls(info, backend)] if cls is not MinMaxPreprocessor else [cls(info, backend, clip_obs=2., alpha=.3)]

    def upd(o, x):
        o[0].update(to([x]))
        return o[0](to([[.5, .5], [9., -9.]]))
    return make, {'a': lambda o: upd(o, [1., 2.]), 'b': lambda o: upd(o, [-3., .5]), 'call': lambda o: o[0](to([.25, 100.]))}


def dist_machine(build, tor=False):
    th = np.array([[.3, -.2], [1., .4], [-.5, .6]])
    w = np.array([.2, .5, .3])
    conv = (lambda x: torch.tensor(x, dtype=torch.float32)) if tor else (lambda x: x)

    def make():
        return [build()]

    def setp(o):
        o[0].set_parameters(o[0].get_parameters() * .9 + .05)
        return o[0].get_parameters()

    def mle(o):
        o[0].mle(th)
        return o[0].get_parameters()

    def wmle(o):
        o[0].mle(th, w)
        return o[0].get_parameters()
    ops = {'sample': lambda o: (o[0].sample(), o[0].sample()), 'log_pdf': lambda o: o[0].log_pdf(conv(th[0])), 'pdf': lambda o: o[0](conv(th[1])),
           'set': setp, 'get': lambda o: (o[0].get_parameters(), o[0].parameters_size), 'entropy': lambda o: o[0].entropy()}
    if tor:
        pass
    else:
        ops.update(mle=mle, wmle=wmle, diff=lambda o: o[0].diff_log(th[2]), mean=lambda o: o[0].mean())
    return make, ops


def reg_machine(kind):
    S = np.array([[.5, -1.], [0., .25], [1.5, 1.]])
    A = np.array([[0], [1], [0]])
    Y = np.array([[.3, 1.], [-.2, 0.], [.7, .5]])
    y1 = Y[:, 0]
    net = dict(network=Net, optimizer=adam(), loss=F.mse_loss, batch_size=2)
    from sklearn.linear_model import LinearRegression
    from sklearn.ensemble import ExtraTreesRegressor
    phi = lin_features()
    K = {
        'linear': lambda: Regressor(LinearApproximator, input_shape=(2,), output_shape=(2,)),
        'linear phi': lambda: Regressor(LinearApproximator, input_shape=(phi.size,), output_shape=(2,), phi=phi),
        'linear q': lambda: Regressor(LinearApproximator, input_shape=(2,), output_shape=(2,), n_actions=2),
        'linear action': lambda: Regressor(LinearApproximator, input_shape=(2,), output_shape=(1,), n_actions=2),
        'linear ensemble': lambda: Regressor(LinearApproximator, input_shape=(2,), output_shape=(2,), n_models=2, prediction='mean'),
        'torch': lambda: Regressor(TorchApproximator, input_shape=(2,), output_shape=(2,), **net),
        'numpy torch': lambda: Regressor(NumpyTorchApproximator, input_shape=(2,), output_shape=(2,), **net),
        'torch q': lambda: Regressor(NumpyTorchApproximator, input_shape=(2,), output_shape=(2,), n_actions=2, **net),
        'torch ensemble': lambda: Regressor(NumpyTorchApproximator, input_shape=(2,), output_shape=(2,), n_models=2, prediction='max', n_actions=2, **net),
        'torch forward only': lambda: Regressor(TorchApproximator, input_shape=(2,), output_shape=(2,), network=Net),
        'sklearn': lambda: Regressor(LinearRegression, input_shape=(2,), output_shape=(2,)),
        'sklearn action': lambda: Regressor(LinearRegression, input_shape=(2,), n_actions=2),
        'sklearn ensemble': lambda: Regressor(ExtraTreesRegressor, input_shape=(2,), output_shape=(2,), n_models=2, prediction='sum', n_estimators=2),
        'cmac': lambda: Regressor(CMAC, tilings=Tiles.generate(2, [2, 2], [-2., -2.], [2.1, 2.1], uniform=True), input_shape=(2,), output_shape=(2,)),
        'table': lambda: Table((3, 2)),
        'tables': lambda: EnsembleTable(2, (3, 2)),
    }

    def make():
        seed(3)
        return [K[kind]()]
    if 'table' in kind:
        def setv(o, i, j, v):
            t = o[0] if kind == 'table' else o[0][0 if v > 0 else 1]
            t[np.array([i]), np.array([j])] = v
            return look(o)

        def look(o):
            return [o[0].predict(np.array([i])) for i in range(3)] + [o[0].predict(np.array([1]), np.array([j])) for j in range(2)]
        return make, {'s0': lambda o: setv(o, 0, 1, 2.), 's1': lambda o: setv(o, 1, 0, -3.), 'look': look,
                      'fit': lambda o: (o[0].fit((np.array([2]), np.array([1])), .7), look(o))[1]}
    q = any(k in kind for k in (' q', 'action')) or kind == 'torch ensemble'

    def fit(o):
        if q:
            o[0].fit(S, A, y1)
        elif kind == 'torch':
            o[0].fit(torch.tensor(S), torch.tensor(Y).float())
        else:
            o[0].fit(S, Y)
        return predict(o)

    def fit2(o):
        if q:
            o[0].fit(S[::-1].copy(), 1 - A, y1 * 2)
        elif kind == 'torch':
            o[0].fit(torch.tensor(S[:2]), torch.tensor(-Y[:2]).float(), n_epochs=2)
        else:
            o[0].fit(S[::-1].copy(), Y * 2)
        return predict(o)

    def predict(o):
        x = torch.tensor(S) if kind.startswith('torch') and kind in ('torch', 'torch forward only') else S
        try:
            y = o[0].predict(x)
        except NotFittedError:
            return 'not fitted'
        return [y] + ([o[0].predict(x, A)] if q else [])

    def shapes(o):
        return list(o[0].input_shape), list(o[0].output_shape), o[0].n_actions or 0

    def weights(o):
        o[0].set_weights(o[0].get_weights() * .5 + .1)
        return o[0].get_weights(), predict(o), o[0].weights_size

    def diff(o):
        return o[0].diff(S[0])
    ops = {'predict': predict, 'shapes': shapes}
    if kind not in ('torch forward only', 'linear q'):
        ops.update(fit=fit, fit2=fit2)
    if 'sklearn' not in kind and 'ensemble' not in kind:
        ops['weights'] = weights
    if 'ensemble' in kind and not q:
        ops['fit idx'] = lambda o: (o[0].fit(S, Y * 3, idx=1), predict(o))[1]
    if kind in ('linear', 'linear phi'):
        ops['diff'] = diff
    return make, ops


def policy_machine(kind):
    S = np.array([.5, -1.])
    A = np.array([.2, .1])
    t = lambda x: torch.tensor(x, dtype=torch.float32)
    tab = lambda: (lambda q: (q.table.__setitem__(slice(None), [[1., 2.], [0., -1.], [.5, .25]]), q)[1])(Table((3, 2)))

    def tdp(p):
        p.set_q(tab())
        return p
    mu = lambda: Regressor(TorchApproximator, input_shape=(2,), output_shape=(2,), network=Net)
    K = {
        'eps': lambda: tdp(td_policy('epsdec')), 'boltz': lambda: tdp(td_policy('boltz')), 'mellow': lambda: tdp(td_policy('mellow')),
        'gauss': lambda: GaussianPolicy(lin(), .3 * np.eye(2)), 'diag': lambda: DiagonalGaussianPolicy(lin(), .3 * np.ones(2)),
        'std': lambda: StateStdGaussianPolicy(lin(), lin(w=.7), eps=1e-3), 'logstd': lambda: StateLogStdGaussianPolicy(lin(), lin(w=-.3)),
        'det': lambda: DeterministicPolicy(lin()), 'vector': lambda: VectorPolicy(DeterministicPolicy(lin()), 2),
        'vector gauss': lambda: VectorPolicy(GaussianPolicy(lin(), .3 * np.eye(2)), 2),
        'ou': lambda: OrnsteinUhlenbeckPolicy(mu(), t([.3, .2]), .15, .1), 'ou x0': lambda: OrnsteinUhlenbeckPolicy(mu(), t([.3, .2]), .15, .1, t([1., -1.])),
        'clip': lambda: ClippedGaussianPolicy(mu(), .3 * torch.eye(2), t([-.5, -.5]), t([.5, .5])),
        'tgauss': lambda: GaussianTorchPolicy(Net, (2,), (2,), std_0=.5), 'tboltz': lambda: BoltzmannTorchPolicy(Net, (2,), (2,), beta=LinearParameter(.7, 1.2, 4)),
        'rec': lambda: RecurrentGaussianTorchPolicy(policy_state_shape=(1,), network=RecMu, input_shape=(2,), output_shape=(2,), std_0=.5,
                                                    log_std_min=-.9, log_std_max=-.6),
        'sac': lambda: SACPolicy(mu(), mu(), t([-.5, -.5]), t([.7, .6]), -3, 1),
    }
    tdk = kind in ('eps', 'boltz', 'mellow')
    tk = kind in ('tgauss', 'tboltz', 'rec', 'sac', 'ou', 'ou x0', 'clip')
    vec = kind.startswith('vector')

    def make():
        seed(4)
        return [K[kind](), None]
    if tdk:
        ops = {'draw0': lambda o: o[0].draw_action(np.array([0]), None)[0], 'draw1': lambda o: o[0].draw_action(np.array([1]), None)[0],
               'prob': lambda o: (o[0](np.array([1]), np.array([0])), o[0](np.array([2])))}
        if kind != 'mellow':
            ops['upd'] = lambda o: o[0].update(np.array([1])) if kind == 'eps' else o[0].update()
        return make, ops, ('full',)

    def draw(o):
        s = np.stack([S, -S]) if vec else t(S) if tk else S
        if o[1] is None and kind in ('ou', 'ou x0', 'rec'):
            o[1] = o[0].reset()
        a, o[1] = o[0].draw_action(s, o[1])
        return a, o[1]

    def weights(o):
        w = o[0].get_weights()
        o[0].set_weights(w * .8 + .05)
        return w, o[0].get_weights()

    def reset(o):
        o[1] = o[0].reset()
        return o[1]
    ops = {'draw': draw, 'weights': weights, 'reset': reset}
    if kind in ('gauss', 'diag', 'std', 'logstd', 'det'):
        ops['prob'] = lambda o: o[0](S, A)
        if kind != 'det':
            ops['diff'] = lambda o: o[0].diff_log(S, A)
            ops['prob'] = lambda o: (o[0](S, A), o[0].diff(S, A))
        if kind == 'gauss':
            ops['sigma'] = lambda o: o[0].set_sigma(.2 * np.eye(2))
        if kind == 'diag':
            ops['sigma'] = lambda o: o[0].set_std(.2 * np.ones(2))
    if kind == 'vector':
        ops['n3'] = lambda o: (o[0].set_n(3), len(o[0]), o[0].set_n(2))[1]
    if kind in ('tgauss', 'tboltz'):
        a = t([[1.], [0.]]) if kind == 'tboltz' else t([[.1, .2], [-.4, 0.]])
        ops['logp'] = lambda o: (o[0].log_prob_t(t([[.5, -1.], [1., 1.]]), a), o[0].entropy(t([[.5, -1.], [1., 1.]])))
        ops['grads'] = lambda o: [p.requires_grad for p in o[0].parameters()]
    return make, ops


def data_machine(backend, stateful):
    def make():
        return [Dataset(make_info(backend, stateful), n_steps=8), 0]

    def append(o, f):
        if o[1] >= 4 or len(o) > 2:
            return None
        extra = {} if backend == 'list' else {'k': float(o[1]), 'm': {'j': (torch.tensor if backend == 'torch' else np.array)([1. * o[1], 2.])}}
        o[0].append(conv(trans(o[1], FLAGS[f], stateful), backend), extra)
        o[1] += 1

    def look(o):
        d = o[0]
        if not len(d):
            return 0
        d.info.parse()
        out = [len(d), d.n_episodes, list(d.parse(to='numpy')), d.undiscounted_return, d.discounted_return, d.episodes_length, d.state, d.action,
               {k: d.info[k] for k in d.info}, d.is_stateful, d.array_backend.get_backend_name()]
        if stateful:
            out += [list(d.parse_policy_state(to='numpy'))]
        if any(d.last):
            out += [d.compute_metrics(.9)] if d.last[-1] else [d.get_init_states()]
        return out

    def view(o):
        # a view is full: nothing can be appended to it, but it can be saved
        o[0] = o[0][1:] if len(o[0]) > 1 else o[0]

    def pick(o):
        o[0] = o[0].copy()

    def episodes(o):
        n = int(sum(bool(x) for x in o[0].last)) if len(o[0]) else 0
        if n and bool(o[0].last[len(o[0]) - 1]):
            o[0] = o[0].select_first_episodes(1)

    def reverse(o):
        if len(o[0]):
            i = np.arange(len(o[0]))[::-1].copy()
            o[0] = o[0][torch.tensor(i) if backend == 'torch' else i]

    def clear(o):
        o[0].clear()
    def part(f):
        # what is taken from a dataset is as long as its contents: no more appends after that
        def go(o):
            f(o)
            if len(o) == 2:
                o.append(1)
        return go
    return make, {'go': lambda o: append(o, 0), 'end': lambda o: append(o, 1), 'look': look, 'view': part(view), 'copy': pick, 'first': part(episodes),
                  'reverse': part(reverse), 'clear': clear}


def vdata_machine(backend, stateful):
    """Vectorized dataset of two environments with masks."""
    tt = torch.tensor if backend == 'torch' else np.array
    f = torch.float64 if backend == 'torch' else float

    def make():
        i = DatasetInfo(backend, None, 7, .9, (2,), f, (1,), f, (1,) if stateful else None, 2)
        return [VectorizedDataset(i, n_steps=5), 0]

    def append(o, mask, last):
        d = o[0]
        if len(d) >= 5:
            return None
        k = float(o[1])
        o[1] += 1
        b = torch.bool if backend == 'torch' else bool
        step = (tt([[k, 1.], [k + 50., 2.]], dtype=f), tt([[k], [k + 50]], dtype=f), tt([k, k + 50.], dtype=f), tt([[k + 1, 1.], [k + 51., 2.]], dtype=f),
                tt([False, False], dtype=b), tt(last, dtype=b))
        if stateful:
            step += (tt([[k + .5], [k + 50.5]], dtype=f), tt([[k + 1.5], [k + 51.5]], dtype=f))
        else:
            step += (None, None)
        d.append_vectorized(step, {'k': tt([k, k + 50.], dtype=f)}, tt(mask, dtype=b))

    def look(o):
        d = o[0]
        if not len(d):
            return 0
        x = d.copy()
        x.info.parse()
        fl = x.flatten()
        if fl is None:
            return 'nothing'
        return list(fl.parse(to='numpy')), [list(fl.parse_policy_state(to='numpy'))] if stateful else [], {k: fl.info[k] for k in fl.info}

    def clear(o):
        o[0].clear(2)
        return len(o[0])
    ops = {'both': lambda o: append(o, [True, True], [False, False]), 'one': lambda o: append(o, [False, True], [True, True]),
           'last': lambda o: append(o, [True, True], [True, False]), 'look': look, 'clear': clear}
    return make, ops


def info_machine(backend, n_envs):
    cfg = dict(n_envs=n_envs, backend=backend, shape=2, form='dict')

    def make():
        return [ExtraInfo(n_envs, backend), 0, 0]

    def append(o):
        o[0].append(entry(o[1], cfg)[0])
        o[1] += 1

    def parse(o):
        o[0].parse()
        return look(o)

    def look(o):
        return {k: o[0][k] for k in o[0].keys()}

    def view(o):
        if len(o[0]):
            o[0] = o[0].get_view(slice(1, None))
            return look(o)

    def plus(o):
        x = ExtraInfo(n_envs, backend)
        for _ in range(2):
            x.append(entry(o[1], cfg)[0])
            o[1] += 1
        o[0] = o[0] + x
        return parse(o)
    return make, {'append': append, 'parse': parse, 'look': look, 'view': view, 'plus': plus, 'clear': lambda o: o[0].clear()}


def plain_machine(kind):
    K = {'box': lambda: Box(np.array([-1., -np.inf]), np.array([1., 3.]), data_type=np.float32), 'box scalar': lambda: Box(0., 2., shape=(2, 3)),
         'discrete': lambda: Discrete(4),
         'mdp': lambda: MDPInfo(Box(-1., 2., shape=(2,)), Discrete(3), .7, 12, dt=.05, backend='torch'),
         'mdp discrete': lambda: MDPInfo(Discrete(5), Discrete(3), .7, 12),
         'agent info': lambda: AgentInfo(True, (2,), 'torch'), 'agent info less': lambda: AgentInfo(False, None, 'numpy'),
         'context': lambda: ContextBuilder((3,)), 'dataset info': lambda: DatasetInfo('torch', None, 7, .9, (2,), torch.float64, (1,), torch.int64, (2,), 3)}

    def make():
        return [K[kind]()]

    def space(s):
        return [s.low, s.high, list(s.shape), str(s.data_type)] if isinstance(s, Box) else [list(s.size), list(s.shape), s.n, np.array(s.values), str(s.data_type)]

    def look(o):
        o = o[0]
        if isinstance(o, (Box, Discrete)):
            return space(o)
        if isinstance(o, MDPInfo):
            return space(o.observation_space), space(o.action_space), o.gamma, o.horizon, o.dt, o.backend, list(o.shape), list(o.size) if kind == 'mdp discrete' else []
        if isinstance(o, AgentInfo):
            return o.is_episodic, o.is_stateful, o.policy_state_shape, o.backend
        if isinstance(o, ContextBuilder):
            return o.context_shape, o(np.zeros(2))
        return (o.backend, o.device, o.horizon, o.gamma, o.state_shape, str(o.state_dtype), o.action_shape, str(o.action_dtype), o.policy_state_shape, o.n_envs)
    return make, {'look': look}


P = parameter_machine
MACHINES = {
    'memory': {'%s %s %s' % (k, b, 'stateful' if s else ''): memory_machine(k, b, s) for k in ('plain', 'seq', 'prio') for b in ('numpy', 'torch') for s in (0, 1)},
    'parameter': {
        'constant': P(lambda: Parameter(.3)), 'linear': P(lambda: LinearParameter(.6, .1, 4)), 'decay': P(lambda: DecayParameter(.8, .6)),
        'decay min': P(lambda: DecayParameter(.8, 1., min_value=.3)), 'clipped': P(lambda: Parameter(.8, min_value=.2, max_value=.5)),
        'linear table': P(lambda: rate('lin', (2,)), True), 'decay table': P(lambda: rate('decay', (2,)), True),
        'vinc': P(lambda: rate('vinc', (2,)), 'variance'), 'vdec': P(lambda: rate('vdec', (2,)), 'variance'), 'vwin': P(lambda: rate('vwin', (2,)), 'variance')},
    'optimizer': {
        **{k: optimizer_machine(lambda k=k: opt(k)) for k in ('sgd', 'adam', 'adaptive')},
        'sgd min': optimizer_machine(lambda: SGDOptimizer(lr=.05, maximize=False)), 'adam min': optimizer_machine(lambda: AdamOptimizer(lr=.05, maximize=False)),
        'adaptive min': optimizer_machine(lambda: AdaptiveOptimizer(eps=.02, maximize=False))},
    'statistics': {'%s %s' % (c.__name__, b): stats_machine(c, b, *a) for c, a in ((RunningStandardization, ()), (RunningExpWeightedAverage, (.3,)),
                                                                                  (RunningAveragedWindow, (2,))) for b in ('numpy', 'torch')},
    'preprocessor': {'%s %s' % (c.__name__, b): pre_machine(c, b) for c in (StandardizationPreprocessor, MinMaxPreprocessor) for b in ('numpy', 'torch')},
    'distribution': {
        'gauss': dist_machine(lambda: GaussianDistribution(np.array([.5, -.2]), np.array([[.5, .1], [.1, .4]]))),
        'diag': dist_machine(lambda: GaussianDiagonalDistribution(np.array([.5, -.2]), np.array([.5, .3]))),
        'chol': dist_machine(lambda: GaussianCholeskyDistribution(np.array([.5, -.2]), np.array([[.5, .1], [.1, .4]]))),
        'tdiag': dist_machine(lambda: DiagonalGaussianTorchDistribution(torch.tensor([.5, -.2]), torch.tensor([.5, .3])), True),
        'tchol': dist_machine(lambda: CholeskyGaussianTorchDistribution(torch.tensor([.5, -.2]), torch.tensor([[.5, .1], [.1, .4]])), True)},
    'regressor': {k: reg_machine(k) for k in ('linear', 'linear phi', 'linear q', 'linear action', 'linear ensemble', 'torch', 'numpy torch', 'torch q',
                                              'torch ensemble', 'torch forward only', 'sklearn', 'sklearn action', 'sklearn ensemble', 'cmac', 'table', 'tables')},
    'policy': {k: policy_machine(k) for k in ('eps', 'boltz', 'mellow', 'gauss', 'diag', 'std', 'logstd', 'det', 'vector', 'vector gauss', 'ou', 'ou x0', 'clip',
                                              'tgauss', 'tboltz', 'rec', 'sac')},
    'dataset': {'%s %s' % (b, 'stateful' if s else ''): data_machine(b, s) for b in ('numpy', 'torch', 'list') for s in (0, 1)},
    'vectorized dataset': {'%s %s' % (b, 'stateful' if s else ''): vdata_machine(b, s) for b in ('numpy', 'torch') for s in (0, 1)},
    'extra info': {'%s %d' % (b, n): info_machine(b, n) for b in ('numpy', 'torch') for n in (1, 2)},
    'plain': {k: plain_machine(k) for k in ('box', 'box scalar', 'discrete', 'mdp', 'mdp discrete', 'agent info', 'agent info less', 'context', 'dataset info')},
}


def drive(o, ops, word, k0):
    out = []
    for i, w in enumerate(word):
        seed(100 + k0 + i)
        out.append(val(ops[w](o)))
    return out


def run_machine(case, st):
    """Every word of operations, cut at every place: the rest of the word on the reloaded object gives what the original gives."""
    make, ops = MACHINES[case['g']][case['k']][:2]
    word = case['w']
    ref = drive(make(), ops, word, 0)
    st.step(len(word))
    with Files() as f:
        o = make()
        kept = []
        # the memory's own extra state (what the machine remembers between operations) goes along
        copy = lambda o, new: [new] + [x.copy() if isinstance(x, np.ndarray) else x.clone() if isinstance(x, torch.Tensor) else x for x in o[1:]]
        for cut in range(len(word) + 1):
            new = f.trip(o[0])
            expect(type(new) is type(o[0]), 'type', type(new), 'instead of', type(o[0]))
            kept.append((cut, copy(o, new)))
            if cut == len(word):
                twice = f.trip(new)
                kept.append((cut, copy(o, twice)))
            if cut < len(word):
                seed(100 + cut)
                same(ref[cut], val(ops[word[cut]](o)), 'operation %d of the original, saved along the way' % cut)
        for cut, c in kept:
            rest = list(word[cut:])
            same(ref[cut:], drive(c, ops, rest, cut), 'reloaded before operation %d:' % cut)
            st.step(len(rest))
            # one more of everything that only looks
            st.state(case['g'], case['k'], str(word[:cut]))
        a, b = kept[0][1], kept[-1][1]
        for w in sorted(ops):
            seed(7)
            x = val(ops[w](o))
            for cut, c in kept:
                seed(7)
                same(x, val(ops[w](c)), 'after the whole word (saved before operation %d), %s:' % (cut, w))
                st.step()
    st.outcome(case['k'])
    st.trace()


def run_empty(case, st):
    """A memory saved without its contents comes back empty and works like a new one."""
    make, ops = MACHINES['memory'][case['k']][:2]
    with Files() as f:
        o = make()
        drive(o, ops, case['w'], 0)
        new = f.trip(o[0], full=False)
        ref = make()
        if case['k'].startswith('prio'):
            ref[0]._beta = o[0]._beta.copy()
        ref[1] = o[1]
        n = [new, o[1], None]
        for i, w in enumerate(case['x']):
            seed(i)
            a = val(ops[w](ref))
            seed(i)
            same(a, val(ops[w](n)), 'operation %d on the memory saved without contents' % i)
            st.step()
    st.state(case['k'], str(case['w']))
    st.trace()


DEPTH = {'memory': (3, 4), 'parameter': (4, 6), 'optimizer': (4, 6), 'statistics': (3, 5), 'preprocessor': (4, 6), 'distribution': (2, 4), 'regressor': (3, 4),
         'policy': (3, 4), 'dataset': (3, 5), 'vectorized dataset': (4, 5), 'extra info': (3, 5), 'plain': (1, 2)}


def machine_cases(tier):
    for g in MACHINES:
        d = DEPTH[g][tier != 'quick']
        for k in MACHINES[g]:
            for w in itertools.product(sorted(MACHINES[g][k][1]), repeat=d):
                yield dict(g=g, k=k, w=list(w))


def empty_cases(tier):
    n = 2 if tier == 'quick' else 3
    for k in MACHINES['memory']:
        ops = sorted(MACHINES['memory'][k][1])
        for w in itertools.product(ops, repeat=n):
            for x in itertools.product(ops, repeat=n):
                yield dict(k=k, w=list(w), x=list(x))


FAMILIES = [
    Family('agents', agent_cases, run_agent, '%d agents x interruption at every step and fit within the bound, saved, reloaded, reloaded again' % len(AGENTS),
           chunk=2),
    Family('light', light_cases, run_light, 'the same without the bulky data', chunk=2),
    Family('components', machine_cases, run_machine, 'every word of operations up to the depth %s (quick, thorough) on %d components, saved before every operation'
           % (DEPTH, sum(len(v) for v in MACHINES.values())), chunk=40),
    Family('emptied', empty_cases, run_empty, 'memories saved without contents after every word, then every word', chunk=40),
]
