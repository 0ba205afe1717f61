"""Single source of properties.jsonl and MANIFEST.json:  /opt/venv/bin/python tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(pid=pid, note=note, prop={
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': ['mushroom_rl/' + f for f in files],
                    'state': [{'name': n, 'meaning': m, 'where': 'mushroom_rl/' + w} for n, m, w in state],
                    'mechanism': [{'name': n, 'where': 'mushroom_rl/' + w} for n, w in mech],
                    'observe_at': list(observe), 'hook_needed': None}}))


DIRECT = ('Bounded-exhaustive: the real code is driven through every enumerated case and compared, step by step, with an '
          'independent reference model; nothing is sampled. Outside the stated bounds nothing is claimed. ')

P('C01', 'The interaction loop delivers every transition exactly once, in order',
  'For any environment, agent, horizon, fit period and stopping rule, running the sequential loop makes exactly the '
  'requested number of environment steps or episodes, and the agent, the step callback, the fit callbacks and the '
  'returned dataset see each transition exactly once, in order, with the action actually executed and the preprocessed '
  'observations. Absorbing is what the environment said; last is set exactly at absorbing or at the horizon, and a new '
  'episode (environment reset, policy reset, agent episode start) begins exactly there and at the start of a run. '
  'Fits happen exactly when the requested number of new steps or episodes has been collected, on exactly those, and no '
  'run depends on what an earlier run on the same loop left behind.',
  ['histories', 'configurations', 'inputs'],
  'every termination script, horizon, stopping rule, fit period, sequence of runs, stateful/episodic/imposed-action '
  'agent and array-backend combination within the bounds',
  'The tests run a few fixed environments and mostly compare final weights; boundary coincidences (fit on the last step '
  'of an episode, horizon together with absorbing, run after run) are histories they do not enumerate.',
  ['core/core.py', 'core/_impl/core_logic.py', 'core/agent.py', 'core/dataset.py'],
  [('step/run/reset', 'core/core.py'), ('counters and fit condition', 'core/_impl/core_logic.py')],
  DIRECT + 'Environment, policy and agent are scripted stubs, loop and dataset are real.',
  ['the calls received by a scripted environment, agent, policy and callbacks', 'the returned dataset'],
  [('step and episode counters', 'progress towards the stopping rule and the next fit', 'core/_impl/core_logic.py')])

P('C02', 'The vectorized loop records each environment\'s own trajectory, exactly',
  'Running several environments in one vectorized loop yields, for every environment separately, exactly the transitions '
  'that environment produced with the actions it was given, in order, with its own absorbing and last flags, policy '
  'states and episode parameters; no transition is lost, duplicated or attributed to another environment. Learning by '
  'steps fits as soon as the requested number of new transitions is available over all environments (a run by steps makes '
  'whole joint steps, rounded up), learning and '
  'evaluation by episodes use exactly the requested number of complete episodes, and every run terminates '
  'whatever was run before.',
  ['histories', 'configurations', 'inputs'],
  'every termination script of every environment, number of environments, stopping rule, fit period and sequence of '
  'runs within the bounds',
  'Episode ends of different environments interleave; tests use one dummy environment with a fixed pattern and look at '
  'sizes only.',
  ['core/vectorized_core.py', 'core/_impl/vectorized_core_logic.py', 'core/dataset.py', 'core/vectorized_env.py'],
  [('_step/_run', 'core/vectorized_core.py'), ('get_mask', 'core/_impl/vectorized_core_logic.py')],
  DIRECT + 'Environment and agent are scripted stubs.',
  ['the datasets given to fit and returned by evaluate, per environment'])

P('C03', 'A dataset is a faithful sequence of its transitions on every backend',
  'A dataset filled by any sequence of appends returns exactly those transitions in order through parsing, indexing, '
  'slicing, selecting and concatenation, identically for the array, tensor and list storages, and clearing it leaves an '
  'empty one that can be filled again. Episode counts and lengths, undiscounted and discounted returns, initial states, '
  'first episodes, and policy states reported by it (and by its slices, selections and sums) are those of the stored '
  'sequence; concatenating marks the seam as an episode end. Creating one dataset from another or from arrays never changes the source.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of appended transitions with every pattern of absorbing and last flags, then every sequence of dataset '
  'operations, for every storage, within the bounds',
  'Tests check two or three fixed datasets; flag patterns, partly filled buffers, derived datasets of derived datasets '
  'are not enumerated.',
  ['core/dataset.py', 'core/_impl/numpy_dataset.py', 'core/_impl/torch_dataset.py', 'core/_impl/list_dataset.py'],
  [('append/get_view/__add__', 'core/dataset.py'), ('storages', 'core/_impl/numpy_dataset.py')],
  DIRECT + 'Oracle: a Python list of tuples.')

P('C04', 'Step information stays aligned with its transition',
  'Whatever dictionaries (nested, of scalars or arrays) an environment attaches to its steps, the '
  'information stored in a dataset of arrays or tensors keeps one entry per step, or per environment and step, in the order of collection, '
  'under the same keys. Parsing, copying, slicing, concatenating, flattening and clearing it keep every entry aligned '
  'with its transition and never mix environments.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of append/parse/slice/copy/concatenate/clear operations over several dictionary shapes, backends and '
  'numbers of environments within the bounds',
  'Lazy parsing makes the result depend on when parsing happened; tests exercise one order.',
  ['core/extra_info.py', 'core/dataset.py'],
  [('append/parse/__add__/flatten', 'core/extra_info.py')],
  DIRECT + 'Oracle: a list of dictionaries.')

P('C05', 'Flattening a vectorized dataset loses, invents and reorders nothing',
  'Flattening the joint record of several environments gives, environment after environment, exactly the active '
  'transitions of each in time order, with flags, information, policy states and parameters attached to the right one; a '
  'trajectory cut by the end of the record is marked as last. Clearing after a fit keeps exactly the transitions that '
  'were not handed over yet, and everything else can be stored again.',
  ['histories', 'configurations', 'inputs'],
  'every activity mask and flag pattern, number of environments, fit size and sequence of append/flatten/clear within '
  'the bounds',
  'The mapping between (time, environment) and flat positions depends on the masks; tests use full masks.',
  ['core/dataset.py', 'core/_impl/numpy_dataset.py', 'core/_impl/torch_dataset.py', 'core/extra_info.py'],
  [('VectorizedDataset.flatten/clear', 'core/dataset.py')],
  DIRECT + 'Oracle: a list of tuples per environment.')

P('C06', 'The replay memory holds exactly the most recent transitions',
  'After any sequence of insertions and resets, the replay memory holds exactly the most recent transitions up to its '
  'capacity, each intact; with n-step returns, exactly the complete windows of n consecutive transitions of one episode '
  'of the inserted batch are stored, each as its first state and action, the discounted sum of its rewards, and the '
  'state and flags reached at its end; no window crosses an episode end. A drawn batch has the requested size and '
  'every held sample is equally likely; the memory is initialized exactly when it holds more than the initial size. '
  'Inserting never changes the dataset it reads.',
  ['histories', 'inputs'],
  'every split of every transition sequence into insertions, capacities, n-step lengths, flag patterns and resets within '
  'the bounds, and every outcome of the index draw',
  'Wrap-around and episode cuts interact; the test inserts one dataset.',
  ['rl_utils/replay_memory.py'],
  [('ReplayMemory.add/get', 'rl_utils/replay_memory.py')],
  DIRECT + 'Random index draws are enumerated exhaustively by replacing the global random functions.')

P('C07', 'Prioritized replay draws in proportion to priority and corrects for it',
  'After any sequence of insertions and priority updates, the sum tree holds for each stored sample its current priority '
  '(the one given at insertion, the power of absolute error plus epsilon once updated), its total and maximum are those of '
  'the leaves, and the expected number of times a held sample appears in a batch is proportional to its priority. '
  'Every drawn batch consists of stored samples with their own transition, with the normalised importance weights of '
  'their draw probability, and identifiers that update exactly those samples.',
  ['histories', 'inputs'],
  'every sequence of insertions, draws and updates over a priority lattice, capacities from one up, within the bounds',
  'Tree propagation bugs show only after particular update orders and wrap-arounds; tests compare one seeded batch.',
  ['rl_utils/replay_memory.py'],
  [('SumTree', 'rl_utils/replay_memory.py'), ('PrioritizedReplayMemory', 'rl_utils/replay_memory.py')],
  DIRECT)

P('C08', 'Sequence replay returns contiguous histories of a single episode',
  'Every sequence drawn from the sequence replay memory is the run of consecutive stored transitions that ends at the '
  'drawn position, cut at the beginning of that episode and at the truncation length, padded with zeros and reported '
  'with its true length, together with the matching policy states and previous actions; it never joins transitions that '
  'were not consecutive in the experience.',
  ['histories', 'inputs'],
  'every flag pattern, insertion split, capacity, truncation length and drawn position within the bounds',
  'Needs the ring to be full and the write position inside a drawn window.',
  ['rl_utils/replay_memory.py'],
  [('SequenceReplayMemory.get', 'rl_utils/replay_memory.py')], DIRECT)

P('C09', 'A saved and reloaded object behaves exactly like the original',
  'For every serializable agent, policy, approximator, memory, schedule, preprocessor, dataset and utility, an object '
  'loaded from a file saved at any point of its history answers every query like the original and, given the same further '
  'inputs and random numbers, goes through the same future, when everything is saved (full save). Without a full save only '
  'the contents of replay memories are left out: the loaded agent acts like the original and its memory starts empty. '
  'Saving does not change the original, and the loaded object shares no state with it.',
  ['histories', 'crash_points', 'configurations'],
  'every object kind and every save point in a history of operations within the bounds',
  'Tests compare the attributes the class itself lists for saving, right after saving, so a forgotten attribute or a '
  'broken internal link is invisible.',
  ['core/serialization.py', 'core/agent.py', 'rl_utils/parameters.py', 'rl_utils/optimizers.py'],
  [('Serializable.save/load', 'core/serialization.py')],
  DIRECT + 'Oracle: the original object continuing from the same random state.')

P('C10', 'Loggers write every record exactly once, in order',
  'Everything a user logs appears in the log files exactly once, in the order logged, under the right name: values '
  'logged under a name accumulate in that name\'s file, a seed-specific run writes to its own files and never touches or '
  'reads those of another seed, the best-agent file holds an agent with the highest score given to the logger so far, and '
  'appending continues the data of a previous run while not appending starts over. Every message reaches the console and, when asked '
  'for, the logger\'s own log file exactly once, at the requested levels, whatever other loggers exist or existed. '
  'Each video recording gets its own file with exactly its frames in order.',
  ['histories', 'configurations'],
  'every sequence of logging operations over configurations within the bounds, with a second logger beside or instead of the first',
  'Tests log one sequence; append/overwrite, restarts, best-agent ties and loggers sharing a name are histories.',
  ['core/logger/logger.py', 'core/logger/data_logger.py', 'core/logger/console_logger.py', 'utils/record.py'],
  [('log_numpy/log_best_agent', 'core/logger/data_logger.py'), ('handlers', 'core/logger/console_logger.py')], DIRECT)

P('C11', 'One-step tabular learners apply exactly their documented update',
  'After any sequence of transitions, the tables of each one-step temporal-difference learner equal the result of its '
  'published update rule applied to those transitions in order: only the visited state-action entry changes, absorbing '
  'next states are never bootstrapped, the learning rate used is that of the visited pair at that visit, double '
  'learners update exactly one table using the other for evaluation, and on-policy learners use the action actually '
  'executed next.',
  ['histories', 'inputs'],
  'every sequence of transitions over a small state-action space, flags, rewards and coin flips within the bounds',
  'Tests compare seeded final tables of a short run on one grid world.',
  ['algorithms/value/td/td.py', 'algorithms/value/td/q_learning.py', 'algorithms/value/td/sarsa.py',
   'algorithms/value/td/double_q_learning.py', 'algorithms/value/td/weighted_q_learning.py',
   'algorithms/value/td/rq_learning.py', 'algorithms/value/td/speedy_q_learning.py',
   'algorithms/value/td/r_learning.py', 'algorithms/value/td/maxmin_q_learning.py',
   'algorithms/value/td/expected_sarsa.py'],
  [('_update', 'algorithms/value/td/q_learning.py')],
  DIRECT + 'Oracle: the published rules re-implemented on dictionaries.')

P('C12', 'Eligibility traces follow the published recursions',
  'For the tabular and the linear trace learners, after any sequence of transitions the weights equal those of the '
  'published recursion with accumulating or replacing traces: traces decay by discount times lambda, are reset at '
  'the beginning of every episode and by nothing else, and the error is propagated to every traced entry.',
  ['histories', 'inputs'],
  'every sequence of transitions, episode boundaries, lambda values and trace types within the bounds',
  'A trace error needs revisits and episode boundaries in a particular order.',
  ['rl_utils/eligibility_trace.py', 'algorithms/value/td/sarsa_lambda.py', 'algorithms/value/td/q_lambda.py',
   'algorithms/value/td/sarsa_lambda_continuous.py', 'algorithms/value/td/true_online_sarsa_lambda.py'],
  [('EligibilityTrace', 'rl_utils/eligibility_trace.py')], DIRECT)

P('C13', 'Deep value learners bootstrap from the right target network',
  'In the deep Q-learning family, the regression target of a sample is its reward plus the discounted value the '
  'algorithm\'s rule assigns to the next state under the target network (zero if absorbing), with rewards '
  'clipped only if asked. The target network equals the online one at construction and after every requested number of '
  'fits and is frozen in between, averaging learners use exactly their last requested copies, and fits happen only when '
  'the memory is initialized.',
  ['histories', 'configurations', 'inputs'],
  'every algorithm of the family, target-update period, warm-up split and number of fits within the bounds',
  'Tests compare seeded final weights; off-by-one synchronisation or a swapped network needs the whole history.',
  ['algorithms/value/dqn/abstract_dqn.py', 'algorithms/value/dqn/dqn.py', 'algorithms/value/dqn/double_dqn.py',
   'algorithms/value/dqn/averaged_dqn.py', 'algorithms/value/dqn/maxmin_dqn.py',
   'algorithms/value/dqn/categorical_dqn.py', 'algorithms/value/dqn/quantile_dqn.py'],
  [('_update_target/_next_q', 'algorithms/value/dqn/abstract_dqn.py')],
  DIRECT + 'Training is observed through a scripted approximator and small linear networks.')

P('C14', 'A policy draws actions with exactly the probabilities it declares',
  'For every action-value policy (and the noise policies around a mean), every table of values and every parameter setting, the declared action probabilities '
  'are non-negative, sum to one and follow the policy\'s formula (greedy ties share equally), and drawing an action '
  'produces each action with exactly its declared probability, using the exploration parameter\'s current value. '
  'Drawing never changes values and counts exactly one use of the exploration parameter.',
  ['inputs', 'configurations'],
  'every table over a value lattice, every parameter value and every outcome of the random draws within the bounds',
  'A sampling test sees a few draws; tie-breaking and rarely taken branches escape it.',
  ['policy/td_policy.py', 'policy/noise_policy.py'],
  [('draw_action/__call__', 'policy/td_policy.py')],
  DIRECT + 'The random source is replaced by an enumerated chooser with known branch probabilities.')

P('C15', 'Parameter schedules return the documented value at every count',
  'Every parameter schedule, global or per table entry, returns after any interleaving of updates and reads exactly the '
  'value documented for the number of updates of that entry, respecting its bounds; reading never advances it, '
  'updating one entry never affects another, and calling it returns the value and counts one update.',
  ['histories', 'inputs'],
  'every interleaving of reads, updates and calls over entries, for every schedule and parameter combination within the bounds',
  'Tests check a couple of values after a linear number of updates.',
  ['rl_utils/parameters.py', 'rl_utils/variance_parameters.py'],
  [('Parameter.__call__/update', 'rl_utils/parameters.py')], DIRECT)

P('C16', 'Finite environments realise exactly their transition model',
  'A finite environment moves from a state under an action to each next state with exactly the modelled probability and '
  'gives that transition\'s reward; it reports absorbing exactly in states without outgoing probability, starts in the '
  'requested state or from the initial distribution, and declares the spaces, horizon and discount it was given. The generated models '
  '(grid worlds, chain, taxi) are proper distributions that describe the grid, walls, goals, holes, passengers and '
  'failure probability they were given.',
  ['inputs', 'configurations'],
  'every small transition model over a probability lattice, every state and action, every random outcome, every small '
  'grid text within the bounds',
  'Tests build one instance of each and compare a few steps.',
  ['environments/finite_mdp.py', 'environments/generators/grid_world.py', 'environments/generators/simple_chain.py',
   'environments/generators/taxi.py'],
  [('FiniteMDP.step', 'environments/finite_mdp.py'), ('compute_probabilities', 'environments/generators/grid_world.py')],
  DIRECT)

P('C17', 'Solvers return the optimal values, gains and policies',
  'For every finite decision process and discount, value iteration returns the optimal value function within its '
  'tolerance, and policy iteration returns an optimal policy with its exact values. For linear-quadratic problems the '
  'feedback gain is the optimal one and the closed-form values, action values and gradients (of single states and '
  'batches) are those of the given linear (or linear-Gaussian) controller. The tree search solver returns the discounted '
  'least number of steps to the goal when it is reachable. Solvers never change the model they are given.',
  ['inputs'],
  'every decision process over a lattice of transition probabilities and rewards with up to the bounded number of states '
  'and actions, every small deterministic graph, a lattice of linear-quadratic problems and gains',
  'Tests compare one grid world and one regulator; degenerate processes (ties, absorbing states, discount zero), '
  'non-square controls and batches are not enumerated.',
  ['solvers/dynamic_programming.py', 'solvers/lqr.py', 'solvers/car_on_hill.py'],
  [('value_iteration/policy_iteration', 'solvers/dynamic_programming.py'), ('closed forms', 'solvers/lqr.py'),
   ('bfs', 'solvers/car_on_hill.py')],
  DIRECT + 'Oracle: brute force over all deterministic policies, each evaluated by a linear solve; explicit summation of '
  'discounted expected costs and its numerical gradient; breadth-first search.')

P('C18', 'Built-in environments honour the contract and their documented dynamics',
  'In every built-in simulated environment (grid worlds, finite MDPs, car on hill, cart pole, inverted pendulum, puddle '
  'world, segway, ship steering, LQR), after any sequence of resets and actions, the next state, reward and absorbing flag are those of '
  'the documented equations of the environment, observations have the declared shape and, while the episode goes on, lie in the declared '
  'space where the environment bounds its state; actions out of range are clipped, resetting to a given state starts there, and the same '
  'state and action always give the same outcome for deterministic environments. Observations, rewards and flags '
  'already returned never change later, the caller\'s arrays are never modified, and two instances never influence each other.',
  ['histories', 'inputs', 'configurations'],
  'every action sequence over an action lattice, interleaved with resets, in every environment, within the bounds',
  'Tests run one seeded trajectory per environment.',
  ['environments/grid_world.py', 'environments/car_on_hill.py', 'environments/cart_pole.py',
   'environments/inverted_pendulum.py', 'environments/puddle_world.py', 'environments/segway.py',
   'environments/ship_steering.py', 'environments/lqr.py', 'environments/finite_mdp.py'],
  [('reset/step', 'environments/grid_world.py'), ('_bound', 'core/environment.py')], DIRECT)

P('C19', 'Environments in worker processes behave like independent local ones',
  'Stepping, resetting, rendering and seeding environments through the multi-process wrapper with any sequence of activity masks gives, for '
  'every active environment, exactly the observations, rewards, flags, information and frames of a local copy receiving the '
  'same calls, whatever the order in which the workers answer; inactive environments are not touched and keep their state. Each worker '
  'has its own random numbers, determined by the seed, every recorded environment gets its own frames, and '
  'discarding the wrapper leaves no worker behind.',
  ['schedules', 'histories', 'configurations'],
  'every sequence of reset/step calls with every activity mask and every order of answers, over the numbers of environments within the bounds',
  'Tests use one mask pattern; cross-talk between workers appears only under particular masks.',
  ['core/multiprocess_environment.py', 'core/vectorized_env.py', 'core/vectorized_core.py'],
  [('_env_worker', 'core/multiprocess_environment.py')], DIRECT)

P('C20', 'Feature maps compute the features they describe',
  'Every tiling activates, for each point inside its range, exactly the one tile that contains the point and none '
  'outside; feature vectors built from tilings, basis functions, tensors or custom functions have the declared size, '
  'contain each feature\'s own value at its own position for single inputs and batches alike, and state-action features '
  'put the state features in the block of the action and zeros elsewhere.',
  ['inputs', 'configurations'],
  'every point of a lattice (cell boundaries included), tiling geometry and feature list within the bounds',
  'Boundary points and several tilings at once are not sampled by the tests.',
  ['features/features.py', 'features/tiles/tiles.py', 'features/tiles/voronoi.py', 'features/basis/gaussian_rbf.py',
   'features/basis/fourier.py', 'features/basis/polynomial.py', 'rl_utils/value_functions.py'],
  [('Tiles.__call__', 'features/tiles/tiles.py')], DIRECT)

P('C21', 'Minibatches visit every sample as often as asked, keeping rows together',
  'Splitting arrays into minibatches yields every row exactly once, rows of all arrays kept together and every '
  'minibatch of the requested size but possibly the last; fitting a neural approximator for a number of epochs and batch size presents '
  'every sample exactly once per epoch with its own target and weight, and one optimizer step per minibatch.',
  ['inputs', 'schedules', 'configurations'],
  'every number of rows, batch size, number of arrays and every permutation of the shuffle within the bounds',
  'A dropped tail or a mis-paired column needs sizes that do not divide and a specific permutation.',
  ['utils/minibatches.py', 'approximators/parametric/torch_approximator.py'],
  [('minibatch_generator', 'utils/minibatches.py'), ('fit', 'approximators/parametric/torch_approximator.py')], DIRECT)

P('C22', 'Advantage estimators never leak across episodes',
  'For any sequence of transitions with any pattern of absorbing and last flags, the computed returns, value targets and '
  'generalised advantages equal their textbook sums taken within each episode: no reward or value of another episode '
  'enters, truncated episodes bootstrap with the next state\'s value and absorbing ones do not (the Monte Carlo '
  'estimator takes no truncation flags: its episodes end at absorbing states and at the end of the data). The on-policy '
  'actor-critic learners train their critic on exactly these targets, and the recurrent one evaluates every step only '
  'on the part of its own episode that precedes it.',
  ['inputs', 'histories'],
  'every flag and reward pattern of bounded length, value functions over a lattice, discount and lambda values',
  'Tests use a single random dataset with fixed flags.',
  ['rl_utils/value_functions.py', 'algorithms/actor_critic/deep_actor_critic/a2c.py',
   'algorithms/actor_critic/deep_actor_critic/ppo.py', 'algorithms/actor_critic/deep_actor_critic/trpo.py',
   'algorithms/actor_critic/deep_actor_critic/ppo_bptt.py'],
  [('compute_gae/compute_J', 'rl_utils/value_functions.py')], DIRECT)

P('C23', 'Parameter vectors round-trip and are never shared by accident',
  'For every policy, distribution and parametric approximator, writing a parameter vector and reading it back returns '
  'the same vector, of the declared size, and the object then computes with exactly those parameters, each in its own '
  'place. A vector read earlier or handed in does not change when the object or the caller changes later.',
  ['histories', 'configurations', 'inputs'],
  'every object kind, every sequence of get/set/modify operations over a set of vectors within the bounds',
  'Aliasing is visible only when a vector is kept across a later write.',
  ['policy/gaussian_policy.py', 'policy/torch_policy.py', 'distributions/gaussian.py', 'approximators/regressor.py',
   'utils/torch.py'],
  [('get_weights/set_weights', 'utils/torch.py')], DIRECT)

P('C24', 'Episodic policy search credits each return to its own parameters',
  'In black-box policy search, each episode\'s return is attributed to exactly the parameters (and context) used in that '
  'episode whatever the episode lengths, and the new search distribution is the one published for those pairs. '
  'In policy-gradient search, the gradient estimate over any set of episodes equals the published estimator computed per '
  'episode.',
  ['histories', 'inputs', 'configurations'],
  'every pattern of episode lengths and returns over a lattice and fit size within the bounds, each algorithm',
  'Mis-pairing needs episodes of different length; tests use seeded runs and compare final numbers.',
  ['algorithms/policy_search/black_box_optimization/black_box_optimization.py',
   'algorithms/policy_search/policy_gradient/policy_gradient.py'],
  [('fit', 'algorithms/policy_search/black_box_optimization/black_box_optimization.py')], DIRECT)

P('C25', 'Observation normalisation reflects exactly the data seen',
  'After any sequence of updates, running statistics equal the mean and deviation of exactly the data they were updated '
  'with and of the initial value they start from (or the documented exponential or windowed average), and the standardising and min-max preprocessors map observations '
  'by them (clipped as documented) without changing the observation they are given; calling without updating changes nothing.',
  ['histories', 'inputs'],
  'every interleaving of updates and calls over a data lattice within the bounds',
  'Order-dependent statistics errors appear after particular prefixes only.',
  ['rl_utils/preprocessors.py', 'rl_utils/running_stats.py'],
  [('StandardizationPreprocessor', 'rl_utils/preprocessors.py')], DIRECT)

P('C26', 'Array backends agree on every operation',
  'Each operation of the array backends gives the same values, shapes and truth for the array and the tensor backend on '
  'equal inputs, equals the mathematical definition, and conversion between backends preserves values, shapes '
  'and kind of numbers.',
  ['inputs', 'configurations'],
  'every operation with every argument pattern over small arrays within the bounds',
  'The tests check a handful of operations on one input.',
  ['core/array_backend.py'],
  [('NumpyBackend/TorchBackend', 'core/array_backend.py')], DIRECT)

P('C27', 'Approximators route every query and update to the right entry',
  'Every value approximator (tables, linear, ensembles, per-action and vector-output regressors, tile-coded ones) '
  'returns for a batch of states and optional actions exactly the values of those entries, in order; fitting samples of one action or '
  'one ensemble member leaves the others untouched; ensembles combine their members exactly as requested (mean, '
  'minimum, maximum, sum, or a chosen member).',
  ['histories', 'inputs', 'configurations'],
  'every approximator kind, every sequence of fit/predict over small state-action sets within the bounds',
  'Tests fit one random dataset per class.',
  ['approximators/regressor.py', 'approximators/table.py', 'approximators/ensemble.py',
   'approximators/_implementations/action_regressor.py', 'approximators/_implementations/q_regressor.py',
   'approximators/parametric/linear.py', 'approximators/parametric/cmac.py'],
  [('predict/fit', 'approximators/regressor.py')], DIRECT)

P('C28', 'Batch value learners reach the fixed point of their data',
  'On any dataset of transitions, every fitted-iteration learner performs exactly the requested number of published '
  'iterations: targets use the function learned by the previous iteration (in the double variant the action is chosen by '
  'the half\'s own function and valued by the other\'s; the boosted variant adds a model of the change of the targets), '
  'absorbing next states are not bootstrapped, every sample is fitted in every iteration (the double variant uses two '
  'equal halves), and a later fit continues from what was learned. Least-squares policy iteration returns weights that solve the projected '
  'equations of their own greedy policy. Fitting never changes the dataset, and the policy acts on the learned function.',
  ['inputs', 'histories'],
  'every dataset over a lattice of transitions, iteration counts within the bounds',
  'Tests compare seeded weights on one problem.',
  ['algorithms/value/batch_td/fqi.py', 'algorithms/value/batch_td/double_fqi.py',
   'algorithms/value/batch_td/boosted_fqi.py', 'algorithms/value/batch_td/lspi.py'],
  [('fit', 'algorithms/value/batch_td/fqi.py')], DIRECT)

P('C29', 'Actor-critic learners use slowly moving targets exactly as published',
  'In the deep off-policy actor-critic learners, target networks start as copies and after each update are exactly the '
  'mixture of old target and online weights with the given coefficient; critic targets are reward plus discounted '
  'target value (minimum of the two critics, with entropy or clipped noise where the algorithm says so), '
  'zero after absorbing states, the actor is updated only every so many critic updates as configured, and nothing '
  'is updated before the warm-up is over.',
  ['histories', 'configurations', 'inputs'],
  'every algorithm, coefficient, policy delay, warm-up size and history of fits within the bounds',
  'Tests compare final weights of one seeded configuration.',
  ['algorithms/actor_critic/deep_actor_critic/ddpg.py', 'algorithms/actor_critic/deep_actor_critic/td3.py',
   'algorithms/actor_critic/deep_actor_critic/sac.py',
   'algorithms/actor_critic/deep_actor_critic/deep_actor_critic.py'],
  [('_update_target/_next_q', 'algorithms/actor_critic/deep_actor_critic/ddpg.py')], DIRECT)

P('C30', 'Linear actor-critic learners apply the published update to every transition',
  'The linear actor-critic learners (compatible deterministic, stochastic discounted and average-reward) change critic, '
  'actor and eligibility traces after every transition exactly as published: one temporal-difference error computed with '
  'the parameters before the update, no bootstrapping after absorbing states, traces decayed once per step and cleared at the end of '
  'every episode also when one dataset holds several episodes, any number of state and action dimensions.',
  ['histories', 'inputs', 'configurations'],
  'every learner, trace coefficient, feature map and history of transitions and episode ends within the bounds',
  'Tests compare the final weights of one seeded run each.',
  ['algorithms/actor_critic/classic_actor_critic/copdac_q.py',
   'algorithms/actor_critic/classic_actor_critic/stochastic_ac.py'],
  [('fit', 'algorithms/actor_critic/classic_actor_critic/stochastic_ac.py')], DIRECT)

P('C31', 'Deep on-policy learners take exactly the published policy step',
  'A fit of the deep on-policy learners uses advantages and old action probabilities of the policy and critic as they were '
  'when the data was collected, trains the critic on the value targets for the given epochs, and moves the policy exactly as published: '
  'the advantage gradient with entropy bonus and norm clipping (A2C), the clipped surrogate over every minibatch of every '
  'epoch, each sample once per epoch (PPO), the line-searched step that stays in the trust region and does not worsen the '
  'surrogate, or no step at all (TRPO). State preprocessors are updated once per fit with the raw states and the old probabilities use '
  'the statistics before the update. The dataset is not changed.',
  ['histories', 'inputs', 'configurations'],
  'every flag pattern, policy kind, coefficient and minibatch permutation within the bounds; sequences of fits',
  'Tests compare the final weights of one seeded run each.',
  ['algorithms/actor_critic/deep_actor_critic/a2c.py', 'algorithms/actor_critic/deep_actor_critic/ppo.py',
   'algorithms/actor_critic/deep_actor_critic/trpo.py', 'algorithms/actor_critic/deep_actor_critic/deep_actor_critic.py',
   'policy/torch_policy.py', 'utils/minibatches.py'],
  [('fit', 'algorithms/actor_critic/deep_actor_critic/ppo.py')], DIRECT)

P('C32', 'Callbacks and learning logs record what happened and change nothing',
  'Attaching callbacks or loss logging does not alter learning. The dataset collector holds every transition of the run exactly once, '
  'in order, in the sequential and the vectorized loop, and is empty after cleaning; the value, maximum-value, parameter and '
  'table collectors hold, per call, exactly the value of the observed object at that moment, not a later one. '
  'Loss logs of regressors contain, per fit and ensemble member, the losses of that fit on the data it used, whether written to '
  'memory or to file, and can be loaded again.',
  ['histories', 'configurations', 'inputs'],
  'every word of collections, cleanings, fits and changes of the observed object within the bounds',
  'Tests check one callback each after one short seeded run.',
  ['utils/callbacks', 'approximators/regressor.py', 'core/core.py', 'core/vectorized_core.py'],
  [('__call__/get/clean', 'utils/callbacks'), ('fit logging', 'approximators/regressor.py')], DIRECT)

P('C33', 'Simulator-backed environments expose exactly what the simulator does',
  'Environments backed by MuJoCo, PyBullet, dm_control, Gym and Atari emulators return observations that are the requested simulator '
  'quantities of the current simulator state, in the requested order, with the announced limits, both at reset and after each '
  'step; they apply the given action for the given number of simulation steps and run the user hooks in order with the '
  'states and actions of that moment. A reset leaves nothing of earlier episodes, a reset to a state starts from that state, '
  'time limits of the backend do not end episodes, life losses, no-ops, frame skipping and history stacking of Atari games follow the '
  'configuration, and modifying a returned observation does not change the environment.',
  ['histories', 'configurations', 'inputs'],
  'every word of steps and resets, selection of observed quantities, control mode and emulator script within the bounds',
  'Tests compare one seeded trajectory per environment with stored numbers, mostly without contacts, models or resets in between.',
  ['environments/mujoco.py', 'utils/mujoco/observation_helper.py', 'environments/pybullet.py', 'utils/pybullet/index_map.py',
   'utils/pybullet/contacts.py', 'utils/pybullet/joints_helper.py', 'environments/gym_env.py', 'environments/dm_control_env.py',
   'environments/atari.py', 'utils/frames.py'],
  [('reset/step', 'environments/mujoco.py'), ('reset/step', 'environments/pybullet.py'), ('create_sim_state', 'utils/pybullet/index_map.py')],
  DIRECT + 'The reference is the same simulator driven directly; the Atari emulator and the pixel renderer are stand-ins.')

P('C34', 'Parametric policies: draws, densities, gradients and weights agree',
  'For every parametric policy (Gaussian with any covariance or state-dependent deviation, deterministic, torch Gaussian, torch Boltzmann, '
  'squashed Gaussian of SAC, recurrent Gaussian, vectorized episodic, movement primitives) the actions drawn have exactly the '
  'distribution whose density, log-probability, entropy and gradient the policy reports for its current weights; the gradient of the '
  'log-density is the derivative of the density; weights set are the weights read and used, and changing the array given does not change the policy; '
  'one action row is drawn per state; movement primitives follow their phase from every reset, keep the policy state handed to them intact and survive save and load.',
  ['histories', 'configurations', 'inputs'],
  'every word of weight changes, reads, resets, draws and save/load within the bounds, with all outcomes of the random draws enumerated',
  'Tests compare one seeded draw or one density value per policy with a stored number.',
  ['policy/gaussian_policy.py', 'policy/deterministic_policy.py', 'policy/torch_policy.py', 'policy/recurrent_torch_policy.py', 'policy/vector_policy.py',
   'policy/promps.py', 'policy/dmp.py', 'algorithms/actor_critic/deep_actor_critic/sac.py'],
  [('draw_action/__call__/diff_log', 'policy/gaussian_policy.py'), ('draw_action_t/log_prob_t/entropy_t', 'policy/torch_policy.py'),
   ('draw_action/update_time', 'policy/promps.py')], DIRECT + 'Normal draws are replaced by quadrature nodes: means and covariances of the draws are computed, not sampled.')

P('C35', 'Rendering and recording show the current state and change nothing',
  'Rendering an environment at any point never changes the trajectory or an observation already returned, and returns a picture exactly when recording '
  'is asked for. Each picture depends only on the current state: it equals the first picture of an environment never rendered before, also after '
  'stopping and rendering again, and shows agent, start, goal and heading where they are, on the configured background. Drawing primitives '
  'draw at the scaled position and leave their arguments alone. The recorder writes every frame exactly once, in order, into one '
  'new video file per run, with the configured or control-step frame rate.',
  ['histories', 'configurations', 'inputs'],
  'every word of steps, renders, recorded renders, stops and resets and every word of frames and stops within the bounds',
  'Tests never look at a picture, and render each environment at most once.',
  ['utils/viewer.py', 'utils/record.py', 'core/core.py', 'environments/grid_world.py', 'environments/ship_steering.py', 'environments/inverted_pendulum.py',
   'environments/cart_pole.py', 'environments/puddle_world.py', 'environments/car_on_hill.py'],
  [('Viewer', 'utils/viewer.py'), ('VideoRecorder', 'utils/record.py'), ('_step/_end', 'core/core.py'), ('render', 'environments/grid_world.py')],
  DIRECT + 'SDL draws on its dummy driver.')

P('C36', 'Geometric, numerical and bookkeeping helpers compute what they document',
  'Angle normalisation returns the equivalent angle of its range and the shortest distance never exceeds half a turn; conversions between Euler angles, '
  'quaternions and matrices describe the same rotation, singly and in batches; numerical gradients equal the derivative and leave the '
  'differentiated object as it was; learning curves have the Student-t confidence band; grids of centers, frame histories, spaces and problem descriptions '
  'hold what they were given, also after reloading; environments made by name are the registered ones with exactly the given arguments; generated LQRs have the '
  'documented matrices; an optimizer keeps its memory when its parameters are replaced.',
  ['inputs', 'configurations', 'histories'],
  'every point of the stated lattices and every word of registrations, constructions, optimizer steps and replacements within the bounds',
  'Tests check a handful of values, or none, of each helper.',
  ['utils/angles.py', 'utils/numerical_gradient.py', 'utils/plot.py', 'utils/frames.py', 'utils/features.py', 'utils/torch.py', 'rl_utils/spaces.py', 'core/environment.py',
   'environments/lqr.py'],
  [('normalize_angle', 'utils/angles.py'), ('numerical_diff_*', 'utils/numerical_gradient.py'), ('make', 'core/environment.py'), ('generate', 'environments/lqr.py')], DIRECT)

TECH = 'explicit-state bounded model checking of the real implementation against a reference model'
LEVEL = 'model_checking'
NOT_YET = 'No check registered yet: machinery for it is under construction in this repository.'


def main():
    have = {p['pid'] for p in PROPS if os.path.exists(os.path.join(ROOT, 'checks', p['pid'].lower() + '.py'))}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['prop']) + '\n')
    checks = []
    for p in PROPS:
        if p['pid'] in have:
            checks.append({'property': p['pid'],
                           'quick_cmd': 'bash run.sh ' + p['pid'],
                           'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + p['pid'],
                           'evidence_file': 'evidence/%s.json' % p['pid'],
                           'technique': p.get('tech', TECH), 'level': LEVEL, 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
         'not_applicable': [{'property': p['pid'], 'reason': NOT_YET} for p in PROPS if p['pid'] not in have],
         'notes': 'All checks run the real code of /repo under /opt/venv; see DESIGN.md. bash run.sh <ID> --replay FILE '
                  'replays a violation.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(PROPS), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()
