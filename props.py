"""The properties, in the form of properties.jsonl, plus the level note of the check."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                      note=note))


P('P01', 'The interaction loop executes, records and fits exactly what was asked',
  'A learn or evaluate run asked for a number of steps, of episodes, or for a set of initial states performs exactly '
  'that many, starting each episode from a reset (in the order of the given initial states), ending it exactly when the '
  'environment reports an absorbing state or the horizon is reached, and always acting on the latest preprocessed '
  'observation and the current policy state. Every executed step is recorded once, with the state, action, reward, '
  'next state, flags and policy states that really occurred, and preprocessors see every observation exactly once, in the order they were added. The parameters an episodic agent '
  'starts an episode with are recorded with that episode, and every executed step is rendered or filmed when, and only when, that was asked for. When '
  'learning, the agent is fitted exactly each time the requested number of steps or episodes has been collected since '
  'the last fit, on exactly that data, with callbacks after it; evaluation never fits, and contradictory requests are rejected.',
  ['inputs', 'histories', 'configurations'],
  'every environment and policy (observations, rewards, absorbing flags and actions are arbitrary), every horizon, every '
  'number of steps/episodes and fit frequency, any number of iterations',
  'tests run a few fixed environments for fixed lengths; the loop must be right for every interleaving of episode ends, '
  'horizons and fit boundaries.',
  ['mushroom_rl/core/core.py', 'mushroom_rl/core/_impl/core_logic.py', 'mushroom_rl/core/agent.py'],
  [('run loop', 'mushroom_rl/core/core.py:Core._run,_step,_reset'),
   ('counters and fit conditions', 'mushroom_rl/core/_impl/core_logic.py:CoreLogic'),
   ('action selection and policy state', 'mushroom_rl/core/agent.py:Agent.draw_action')],
  'unbounded: inductive invariant on the run loop, arbitrary environment/agent/dataset behind their interface contracts; '
  'the dataset is an assumed contract here (proved in P03); termination not proved')

P('P08', 'Tabular TD control algorithms apply their published update to one entry',
  'One fit on a transition changes the action-value table of the visited state-action pair to the value prescribed by the '
  'published rule of the algorithm (Q-learning, SARSA, expected SARSA, double, speedy, maxmin, weighted, R- and RQ-learning), '
  'with no bootstrap term when the next state is absorbing and the learning rate of that pair. Every other entry, and every '
  'table the rule does not update, stays as it was. SARSA then executes the very action it used in its target.',
  ['inputs', 'histories'],
  'every table content, transition, number of states and actions, discount, learning rate, exploration outcome and tie; one update '
  'from an arbitrary table covers all histories by induction',
  'tests compare final tables of a few seeded runs on one small problem.',
  ['mushroom_rl/algorithms/value/td', 'mushroom_rl/approximators/table.py', 'mushroom_rl/approximators/ensemble_table.py'],
  [('update rules', 'mushroom_rl/algorithms/value/td/*.py:_update'), ('table access', 'mushroom_rl/approximators/table.py:Table')],
  'unbounded in states, actions, values; maxmin for 3 tables; the sampled next-value of weighted Q-learning is an assumed '
  'contract of its helper')

P('P09', 'Eligibility-trace algorithms follow the TD(lambda) recursions',
  'One fit of SARSA(lambda), Q(lambda), their linear continuous version and true online SARSA(lambda) moves every weight by the learning rate '
  'times the temporal-difference error times its trace, and makes the traces decay by discount times lambda and accumulate (or be replaced by one) on the '
  'visited entry, as published. There is no bootstrap when the next state is absorbing. Starting an episode clears the traces '
  'and leaves the learned values alone.',
  ['inputs', 'histories'], 'every table/weight vector, trace content, transition, lambda, discount, learning rate and number of features',
  'tests compare final tables of a few seeded runs.',
  ['mushroom_rl/algorithms/value/td', 'mushroom_rl/rl_utils/eligibility_trace.py', 'mushroom_rl/approximators/parametric/linear.py'],
  [('lambda updates', 'mushroom_rl/algorithms/value/td/{sarsa_lambda,q_lambda,sarsa_lambda_continuous,true_online_sarsa_lambda}.py'),
   ('traces', 'mushroom_rl/rl_utils/eligibility_trace.py')],
  'unbounded in states, actions, features; linear algorithms for 2 actions (weights of any number of features)')

P('P12', 'Value-based exploration policies have the documented action distribution',
  'Epsilon-greedy gives every action epsilon over the number of actions plus, shared equally among the greedy actions, one minus epsilon; '
  'drawing explores with probability epsilon (uniformly over all of the actions) and otherwise returns a greedy action, always a valid one. '
  'The Boltzmann policy has the softmax of the scaled values as distribution and draws from exactly that distribution. '
  'Evaluating probabilities changes neither the values nor the exploration schedule of epsilon-greedy, and drawing advances the schedule of the visited entry once.',
  ['inputs'], 'every value table, state, number of actions, epsilon / temperature, and every set of ties',
  'tests check one table; ties and degenerate epsilons are not sampled.',
  ['mushroom_rl/policy/td_policy.py'],
  [('epsilon-greedy', 'mushroom_rl/policy/td_policy.py:EpsGreedy'), ('Boltzmann', 'mushroom_rl/policy/td_policy.py:Boltzmann')],
  'unbounded; exp is an uninterpreted function; Mellowmax root finding is a bounded concrete check (external root finder)')

P('P13', 'Schedules and tables return and advance exactly the addressed entry',
  'A constant, linear or decaying parameter has, after n uses of an entry, the documented value of n within its bounds; the linear one reaches its threshold '
  'after exactly the given number of uses and never passes it. Using it advances only the addressed entry by one, reading it advances nothing. '
  'A variance-dependent parameter has the documented increasing or decreasing value of the estimated variance of its target, over all updates or over the last window of them. '
  'Tables return and change exactly the addressed entry.',
  ['inputs', 'histories'], 'every initial value, threshold, exponent, number of uses so far, shape and index',
  'tests sample a few values of a scalar parameter.',
  ['mushroom_rl/rl_utils/parameters.py', 'mushroom_rl/rl_utils/variance_parameters.py', 'mushroom_rl/approximators/table.py'],
  [('schedules', 'mushroom_rl/rl_utils/parameters.py'), ('table access', 'mushroom_rl/approximators/table.py:Table')],
  'unbounded; exponents 1 and 2 of the decay; windows of 2 and 3 updates')

P('P03', 'Datasets hold exactly the recorded transitions through every operation',
  'Appending a transition adds exactly it (a copy, with its policy states when there are any) after the ones already there; reading an item, a slice, a tail or a set of '
  'indices of a dataset returns exactly those transitions in that order, and out-of-range items are rejected. Concatenating two datasets gives the first followed by the second with the '
  'last step of the first flagged as end of an episode and the operands untouched; clearing empties it without touching data handed out before; copied views are independent; '
  'building from arrays and parsing back to numpy or torch is lossless.',
  ['inputs', 'histories', 'configurations'],
  'every content, number of transitions, capacity, state/action/policy-state size, slice and index set, for the numpy, torch and list backends',
  'tests use a few datasets of fixed sizes; aliasing and partly filled buffers are not sampled.',
  ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/_impl/numpy_dataset.py', 'mushroom_rl/core/_impl/torch_dataset.py', 'mushroom_rl/core/_impl/list_dataset.py'],
  [('container', 'mushroom_rl/core/dataset.py:Dataset'), ('array storage', 'mushroom_rl/core/_impl/{numpy,torch}_dataset.py'),
   ('list storage', 'mushroom_rl/core/_impl/list_dataset.py')],
  'unbounded for numpy and torch (any length, capacity and sizes, induction over appends through an arbitrary filled state); list backend for lengths up to 3')

P('P04', 'Episode statistics of a dataset are those of its episodes',
  'Episode lengths, initial states, the number of episodes and the (discounted) returns contain one entry per episode, in order, where episodes end exactly at the last flags (an unfinished final episode counts '
  'for initial states, returns and number of episodes, not for lengths), with the value computed from the steps of that episode only. '
  'Selecting the first n episodes returns exactly the steps up to the end of the n-th. Metrics are the minimum, maximum, mean, median and count of the returns of the completed episodes, and zeros when there is none.',
  ['inputs'], 'every non-empty sequence of rewards, states and last flags of any length, every discount, numpy and torch backends',
  'tests use one short dataset; arbitrary placements of episode ends are not sampled.',
  ['mushroom_rl/core/dataset.py'],
  [('statistics', 'mushroom_rl/core/dataset.py:Dataset.episodes_length,get_init_states,compute_J,compute_metrics,select_first_episodes'),
   ('number of episodes', 'mushroom_rl/core/_impl/*_dataset.py:n_episodes')],
  'unbounded: loop invariants over the transitions; the median itself is an assumed contract (checked concretely)')

P('P05', 'Flattening a vectorized dataset keeps the active steps of each environment',
  'A step of parallel environments is recorded with the mask of the environments that were active. Flattening returns exactly the active steps (all fields, policy states included), '
  'environment by environment in time order, with the final recorded row marked as end; asked for a number of steps it returns the first that many of them. The step information recorded with a step is kept, dropped and cut with it. Policy parameters are grouped '
  'the same way. Clearing empties it, or, asked to keep the steps beyond a number, keeps that many of the final rows.',
  ['inputs', 'configurations'], 'every content, mask and number of rows; 2 and 3 environments; numpy and torch backends',
  'tests only check lengths of a few runs.',
  ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/array_backend.py', 'mushroom_rl/core/_impl/numpy_dataset.py', 'mushroom_rl/core/_impl/torch_dataset.py', 'mushroom_rl/core/extra_info.py'],
  [('flatten and clear', 'mushroom_rl/core/dataset.py:VectorizedDataset'), ('packing', 'mushroom_rl/core/array_backend.py:pack_padded_sequence')],
  'unbounded in rows and contents, 2-3 environments; the number of active steps of a full mask is assumed')

P('P06', 'The replay memory is a circular buffer of n-step transitions, sampled from it',
  'Adding a dataset appends, in order, each n-step transition it contains: first state and action, discounted sum of the n rewards, final next state and flags, never crossing an episode end, '
  'with the policy states. When the memory is full the oldest transitions are overwritten and everything else stays. The size is the number of stored transitions up to the maximum; it counts as '
  'initialized when that exceeds the initial size. Sampling returns batches of stored transitions of the requested size only; resetting empties it. The given dataset is not modified.',
  ['inputs', 'histories'], 'every content, capacity, position, full or not, discount and placement of episode ends; datasets of up to 4 transitions with 1-, 2- and 3-step returns; numpy and torch',
  'tests add one dataset to one memory; wrap-around at each position combined with episode ends is not sampled.',
  ['mushroom_rl/rl_utils/replay_memory.py', 'mushroom_rl/core/dataset.py'],
  [('circular buffer', 'mushroom_rl/rl_utils/replay_memory.py:ReplayMemory'), ('storage', 'mushroom_rl/core/_impl')],
  'one add from an arbitrary memory state, capacity unbounded; the added dataset has at most 4 transitions and n <= 3 (bounded in that dimension)')

P('P07', 'Prioritized replay samples stored transitions in proportion to their priority',
  'After any sequence of additions and updates the tree holds, for each stored transition, the last priority it was given, and every inner node is the sum of its children, so the root is the total. '
  'Retrieving any value strictly between zero and the total returns a stored slot of positive priority, namely the one whose interval of the cumulative priorities contains the value when no subtrees tie. A batch draws one value '
  'in each equal segment of the total and returns the stored transitions (policy states included) with normalised weights (size times probability) to the minus beta, never above one. Updating sets (|error| + epsilon) to the alpha; zero priorities are rejected; '
  'new data get the maximum priority once initialized, one before.',
  ['inputs', 'histories'], 'every capacity of at least 2, content, priority, value, tie and discount; batches of up to 3 samples, additions of up to 3 transitions',
  'tests check one seeded batch of one tree; structure of the tree for every size and every update is not sampled.',
  ['mushroom_rl/rl_utils/replay_memory.py'],
  [('sum tree', 'mushroom_rl/rl_utils/replay_memory.py:SumTree'), ('prioritized memory', 'mushroom_rl/rl_utils/replay_memory.py:PrioritizedReplayMemory')],
  'tree invariant and descent proved for every size, one level at a time with the recursive call behind its contract; whole trees additionally for 2-4 leaves')

P('P02', 'The vectorized loop runs exactly the requested episodes over the environments',
  'Running several environments in parallel, a request for a number of episodes completes exactly that many, whatever order they end in; a request for steps stops at the first round that reaches it. At every round exactly the '
  'environments inside an episode move, each on its own current observation and policy state; an environment is reset only between episodes, gets the next of the given initial states, and ends at its own absorbing state or horizon. All '
  'moves are recorded with the mask of the environments that moved; the policy parameters of an episodic agent are recorded once for every episode that starts. Fits happen when the requested steps or (exactly) episodes were collected, on the flattened data; evaluation never fits and does not depend on an earlier learning run.',
  ['inputs', 'histories', 'schedules', 'configurations'],
  'every order of episode ends over the environments, every horizon, number of steps/episodes, fit frequency, observation, reward and policy; 2 environments (3 in the thorough tier), any number of rounds',
  'tests run a few fixed environments; the mask logic must be right for every interleaving of episode ends.',
  ['mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/_impl/vectorized_core_logic.py', 'mushroom_rl/core/_impl/core_logic.py'],
  [('run loop', 'mushroom_rl/core/vectorized_core.py:VectorCore._run,_step,_reset'), ('mask and counters', 'mushroom_rl/core/_impl/vectorized_core_logic.py:VectorizedCoreLogic')],
  'inductive invariant on the run loop, any number of rounds; bounded in the number of environments (2; 3 in the thorough tier); environments report no absorbing flag for environments that did not move; '
  'dataset behind an assumed contract (P05)')

P('P14', 'Advantages and value targets follow their recursive definitions',
  'For every batch of transitions the one-step, rollout and generalised (GAE, also the recurrent version) estimators return the values of their definitions: no bootstrap from absorbing states, '
  'bootstrap from the critic where an episode is cut or the data end, no leakage of later episodes into earlier ones (for GAE), targets equal to value plus advantage, GAE with lambda zero equal to one-step. The inputs are not modified.',
  ['inputs'], 'every number of transitions, reward, value function, placement of absorbing and last flags, discount and lambda (absorbing steps are also last; the rollout estimator takes one rollout of at least two steps)',
  'tests compare the weights after seeded training runs.',
  ['mushroom_rl/rl_utils/value_functions.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py'],
  [('estimators', 'mushroom_rl/rl_utils/value_functions.py'), ('recurrent estimator', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py:PPO_BPTT.compute_gae')],
  'unbounded: loop invariant against a ghost recursion from the end of the data; value function arbitrary')

P('P15', 'Running statistics and preprocessors compute what they are documented to',
  'The running standardization follows the Welford recursion with a minimum learning rate from any state, exponential and window averages equal their definitions, and resetting restores the initial statistics. The standardization '
  'preprocessor returns the clipped standardised observation, the min-max one maps every bounded component of the observation linearly from its bounds to [-1, 1] and standardises the others, accepting any space with at least one bounded component. '
  'Preprocessing never modifies the observation it is given nor the statistics; only update does. The preprocessors of an on-policy agent are applied in order, and a fit updates each of them once, with what the previous ones make of the states.',
  ['inputs', 'histories', 'configurations'], 'every statistics state, observation, bound and clip value; 1-3 components, batches of up to 3, windows of up to 3; numpy and torch',
  'tests run one environment.',
  ['mushroom_rl/rl_utils/running_stats.py', 'mushroom_rl/rl_utils/preprocessors.py', 'mushroom_rl/core/agent.py',
   'mushroom_rl/algorithms/actor_critic/deep_actor_critic/deep_actor_critic.py'],
  [('statistics', 'mushroom_rl/rl_utils/running_stats.py'), ('preprocessors', 'mushroom_rl/rl_utils/preprocessors.py')],
  'one update from an arbitrary state (all histories by induction); bounded in the number of components (3)')

P('P10', 'Deep Q-learning agents regress the online network on the published target',
  'One fit of DQN, Double, Averaged, Maxmin, categorical, quantile DQN or Rainbow stores the new data once and, only when the memory has reached its initial size, fits the online network (one member for Maxmin) on the sampled states and actions '
  'with the published target: reward (clipped if asked) plus discount times the bootstrap of the target network (of the online argmax for Double and Rainbow; the mean of the targets in use for Averaged; the maximum of the minimum for Maxmin; the '
  'projection on the atoms or the shifted quantiles for the distributional ones), without bootstrap at absorbing states. With prioritised replay the importance weights and the new priorities are those of the same batch. A target network '
  'changes only every given number of fits, to the weights of the online network then (for Averaged the oldest is replaced). The given parameter dictionaries are left as they are.',
  ['inputs', 'histories', 'configurations'],
  'every network (prediction is an arbitrary function of weights, state and action), batch content and size, number of actions, discount, update count and frequency; ensembles of 2-3; 2-3 atoms and 2 actions for the projection',
  'tests compare the weights after one seeded training run per agent.',
  ['mushroom_rl/algorithms/value/dqn', 'mushroom_rl/approximators/regressor.py', 'mushroom_rl/approximators/ensemble.py'],
  [('targets', 'mushroom_rl/algorithms/value/dqn/*.py:_next_q,fit'), ('fit and target schedule', 'mushroom_rl/algorithms/value/dqn/abstract_dqn.py:AbstractDQN'),
   ('prediction plumbing', 'mushroom_rl/approximators/_implementations/q_regressor.py, ensemble.py')],
  'one fit from an arbitrary state (all histories by induction on the update count); the network itself and the replay memory (P06/P07) behind interface contracts; gradient descent not covered; '
  'ensemble sizes and atoms bounded as stated')

P('P11', 'Fitted Q-iteration and LSPI regress on the Bellman backup of the previous fit',
  'In a batch fit every iteration performs exactly one regression per model on the given states and actions. The first target is the reward; each later one is reward plus discount times the maximum of the previous regressor at the next '
  'state, nothing at absorbing states. Double FQI fits each model on its own half, evaluating its own greedy action with the other model; boosted FQI fits each new model on what is missing to the backup of the sum of the previous ones. '
  'LSPI replaces the weights by the solution of the least-squares system of the greedy policy. The data and the given parameter dictionaries are not modified, also over repeated calls.',
  ['inputs', 'histories'],
  'every data set (any number of samples), regressor (arbitrary function), number of actions and discount; any iteration by induction (three are executed); LSPI systems of 2 samples with 1 feature or 1 sample with 2 features, 2 actions, without ties',
  'tests compare the result of one seeded fit.',
  ['mushroom_rl/algorithms/value/batch_td', 'mushroom_rl/approximators', 'mushroom_rl/features/features.py'],
  [('targets', 'mushroom_rl/algorithms/value/batch_td/{fqi,double_fqi,boosted_fqi}.py:fit'), ('least squares', 'mushroom_rl/algorithms/value/batch_td/lspi.py:LSPI.fit')],
  'unbounded in data, values and actions for the FQI family; LSPI bounded in size and with np.linalg.solve as an assumed contract; convergence of LSPI not covered')

P('P16', 'Saving and loading gives back an object that behaves the same',
  'Saving an object and loading it gives a new, independent object with the same declared content: attributes marked for full saves come back '
  'exactly when a full save was made and are empty otherwise, missing ones are empty, nested objects and lists of objects are restored too, and '
  'unknown methods are rejected. A loaded dataset, replay memory, table, schedule, trace, optimizer, running statistic, preprocessor, policy, linear '
  'regressor or tabular agent (under epsilon-greedy, Boltzmann or Mellowmax exploration) answers and continues as the original would have; a memory saved without its data is an empty usable memory. Every learning agent of the library, saved in '
  'the middle of its training with a full save, continues to train as the original.',
  ['inputs', 'histories', 'configurations'],
  'every content, size, capacity, fill level and flag of the objects; every declared saving method, set or empty, light or full save',
  'tests compare the declared attributes of a few agents, so an attribute that was never declared, or is lost by the loader, is not noticed.',
  ['mushroom_rl/core/serialization.py', 'mushroom_rl/core/dataset.py', 'mushroom_rl/core/_impl', 'mushroom_rl/core/extra_info.py', 'mushroom_rl/rl_utils',
   'mushroom_rl/policy', 'mushroom_rl/approximators', 'mushroom_rl/algorithms', 'mushroom_rl/distributions'],
  [('save and load', 'mushroom_rl/core/serialization.py:Serializable.save_zip,load_zip'),
   ('declared attributes', '_add_save_attr and _post_load of every class')],
  'unbounded in contents and sizes; the archive, pickle, numpy, torch and json writers are assumed contracts (load returns an equal new object); '
  'prioritized memory for 3 slots; the agents beyond the tabular ones (networks, pickle, archive) are saved, loaded and continued in concrete runs only (bounded, not proved)')

P('P17', 'Step information keeps its place; both array backends agree',
  'The extra information of step k is, after any interleaving of appending, parsing, copying, concatenating, viewing and flattening, found at '
  'row k of the array of its key, in the requested library, with the missing-value mark where a step (or environment) did not report it; steps of the '
  'second operand follow all those of the first, flattening is environment-major and honours the mask, operands and copies are not disturbed, and '
  'the dictionary is read-only. The backend-neutral operations have the same meaning for numpy and torch and conversion keeps values.',
  ['inputs', 'histories'], 'every number of parsed steps, array width, number of environments, key set change, index set, and order of operations',
  'tests use one or two fixed key sets, parse once and never append afterwards.',
  ['mushroom_rl/core/extra_info.py', 'mushroom_rl/core/array_backend.py'],
  [('parsing', 'mushroom_rl/core/extra_info.py:ExtraInfo.parse'), ('operations', 'mushroom_rl/core/array_backend.py')],
  'unbounded in parsed steps and widths, up to 3 steps between two parses (every history is a sequence of such segments); lists of dictionaries for 2 environments; '
  'masked flattening for 2x2; the missing-value mark is an arbitrary real in the proofs')

P('P18', 'Control environments follow their documented equations',
  'The classic control environments start where documented (or in the given state, with the angle normalised and the caller\'s array untouched), apply the '
  'action clipped to the declared bounds, integrate the documented equation of motion from the current state over one control period, normalise angles into '
  '(-pi, pi], bound what they declare as bounded, and return the documented reward and absorbing flag of the state reached; states already returned do '
  'not change later. Angle wrapping changes an angle by whole turns only; the bounds of the spaces are ordered.',
  ['inputs', 'configurations'], 'every state, action, noise draw and physical parameter of car on hill, cart pole, pendulum, segway, LQR, puddle world and ship',
  'tests replay ten random steps from one seed and compare one final state.',
  ['mushroom_rl/environments', 'mushroom_rl/utils/angles.py', 'mushroom_rl/core/environment.py'],
  [('step', 'mushroom_rl/environments/{car_on_hill,cart_pole,inverted_pendulum,segway,lqr,puddle_world,ship_steering}.py:step'),
   ('angles', 'mushroom_rl/utils/angles.py:normalize_angle')],
  'unbounded in states, actions and parameters; odeint and norm.pdf are assumed contracts (the equation handed to odeint is proved, its solution is arbitrary); '
  'LQR up to 2 dimensions, ship up to 2 integration sub-steps, puddle world up to 2 puddles; sin, cos and powers uninterpreted; rendering not covered')

P('P19', 'Finite MDPs and grid worlds move as their tables and maps say',
  'A finite MDP starts from its initial distribution (or the given state), moves to a state drawn from the row of the current state and action, pays the '
  'reward of that transition and is absorbing exactly when the reached state has no way out. Grid worlds move one cell in the direction of the action, stay put at '
  'the border, and pay and stop at the goal as documented; they draw start, goal and agent in their cells. The generated chain, grid and taxi tables give '
  'every state, action and successor the documented probability, reward and start probability, with or without a final newline in the map.',
  ['inputs', 'configurations'], 'every table, grid size, position, action, chain length, success probability and reward; for generators also every small map',
  'tests walk ten random steps on one map and compare the last state.',
  ['mushroom_rl/environments/finite_mdp.py', 'mushroom_rl/environments/grid_world.py', 'mushroom_rl/environments/generators'],
  [('sampling', 'mushroom_rl/environments/finite_mdp.py:FiniteMDP.step'), ('moves', 'mushroom_rl/environments/grid_world.py:AbstractGridWorld._grid_step'),
   ('tables', 'mushroom_rl/environments/generators/*.py')],
  'unbounded for tables, grids and chains; maps: symbolic probabilities and rewards on 7 grid and 5 taxi maps plus random maps up to 4x4 (bounded); '
  'np.random.choice is an assumed contract')

P('P20', 'Features have the documented value, size and layout',
  'A tiling maps every point of its range to the tile that contains it (an index below its size) and every other point to none; generated tilings all cover '
  'the whole range with the documented displacement. Tile features have exactly one active entry per tiling, at the offset of that tiling. Gaussian, Fourier and '
  'polynomial bases and their tensor versions evaluate their documented formula, generated sets contain every centre, harmonic or monomial exactly once, a '
  'feature vector has the declared size for one input and one row per input for many, and state-action features hold the state features in the block of the action only.',
  ['inputs', 'configurations'], 'every point, range, number of tiles, parameter and input value, single input or batch, any selected dimensions',
  'tests compare stored numbers of one configuration per class.',
  ['mushroom_rl/features', 'mushroom_rl/utils/features.py'],
  [('tiles', 'mushroom_rl/features/tiles/tiles.py:Tiles.__call__'), ('feature vectors', 'mushroom_rl/features/_implementations'),
   ('bases', 'mushroom_rl/features/basis, mushroom_rl/features/tensors'), ('state-action features', 'mushroom_rl/features/features.py:get_action_features')],
  'unbounded in values and numbers of tiles; up to 3 dimensions, 3 tilings, 3 centres per axis, batches up to 2; exp, sin and cos uninterpreted; floating point edge of a '
  'tiling bounded (concrete)')

P('P21', 'Regressors predict, differentiate and fit what their type documents',
  'A linear approximator predicts the inner product of features and weights, for one input or one row per input; its derivative has the features in the block '
  'of each output or of the given action; after a fit the residuals are orthogonal to the features. One model per action: every sample is fitted by and '
  'predicted from the model of its action only; one model for all actions: the value of the given action is picked. Ensembles return mean, sum, minimum or '
  'maximum of exactly the selected models (with their variance if asked, for a batch or one sample) and fit the selected ones. A CMAC sums the active tiles and spreads the error over them, also for points outside '
  'the tilings. Tables read and write exactly the addressed entry. Weights read back as set, and arrays of the caller are never written.',
  ['inputs', 'configurations'], 'every data set size, feature and output dimension, weights, actions, tiling and table',
  'tests compare one stored prediction per model class.',
  ['mushroom_rl/approximators'],
  [('linear', 'mushroom_rl/approximators/parametric/linear.py:LinearApproximator'), ('CMAC', 'mushroom_rl/approximators/parametric/cmac.py:CMAC'),
   ('routing', 'mushroom_rl/approximators/_implementations'), ('ensembles', 'mushroom_rl/approximators/ensemble.py:Ensemble.predict'),
   ('tables', 'mushroom_rl/approximators/table.py:Table')],
  'unbounded in data and dimensions; 2 or 3 actions/models for per-action and ensemble regressors, 2 arbitrary tilings and up to 2 samples for CMAC; '
  'pinv is an assumed contract (normal equations)')

P('P22', 'Torch approximators train on every sample as scheduled',
  'Each epoch of a fit feeds every sample exactly once (shuffled together with its target in minibatches of the given size, or all at once), with one gradient '
  'step per minibatch on the mean (or sample-weighted mean) loss; the first part of the data trains and exactly the rest validates; training stops at the '
  'given number of epochs or after the given number of epochs without improvement; the reported loss is that of the last epoch; dropout is active only '
  'during fits. Weight vectors have the layout of the parameters, read back as set and never share memory with the model.',
  ['inputs', 'histories', 'configurations'], 'every data set, batch size, sample weight, loss sequence, patience, tolerance, split and parameter shape',
  'tests fit one network from one seed and compare three predictions.',
  ['mushroom_rl/approximators/parametric/torch_approximator.py', 'mushroom_rl/utils/minibatches.py', 'mushroom_rl/utils/torch.py'],
  [('fit', 'mushroom_rl/approximators/parametric/torch_approximator.py:TorchApproximator.fit'), ('minibatches', 'mushroom_rl/utils/minibatches.py:minibatch_generator'),
   ('weights', 'mushroom_rl/utils/torch.py:TorchUtils.set_weights')],
  'network, loss and optimiser are arbitrary ghost functions; unbounded in data and batch size; up to 3 minibatches, 4 epochs; the gradient of the prediction '
  '(autograd) is checked on concrete inputs only (bounded); np.random.shuffle is an assumed contract')

P('P23', 'Exact solvers return the solution their equations define',
  'Value iteration stops only when one more Bellman backup changes the value by at most the tolerance, and returns that backup; policy iteration returns a '
  'policy that is greedy for, and whose value solves the Bellman equation of, the model. The LQR solver iterates the documented Riccati recursion and '
  'returns the gain of the last matrix; the value and action-value functions of a gain (deterministic or Gaussian) solve the Lyapunov and Bellman equations of '
  'the system, and the policy gradient is the derivative of that value, for one state or a batch. The car-on-hill search returns exactly the discounted '
  'reward of the best sequence of actions of the given depth. The given model is never written.',
  ['inputs', 'configurations'], 'every model, discount factor, tolerance, gain, covariance, state or batch, and every outcome tree of the hill',
  'tests solve one chain and one LQR and compare stored numbers.',
  ['mushroom_rl/solvers'],
  [('dynamic programming', 'mushroom_rl/solvers/dynamic_programming.py:value_iteration'), ('LQR', 'mushroom_rl/solvers/lqr.py:compute_lqr_P'),
   ('car on hill', 'mushroom_rl/solvers/car_on_hill.py:bfs')],
  'unbounded in values and number of iterations; 1 or 2 states, actions and dimensions; search depth up to 4; np.linalg.solve/inv are assumed contracts; '
  'convergence of value iteration is not claimed (partial correctness)')

P('P24', 'Policy search estimates the published gradients and performance updates',
  'REINFORCE, GPOMDP and eNAC add, to the policy weights, the optimiser step along exactly the published gradient estimate of the episodes in the data '
  '(discounted returns, baselines minimising the variance, natural gradient), with nothing left over from an earlier fit. Gradient optimisers step in the '
  'documented direction and length and leave their arguments alone. Black-box optimisers draw the parameters of each episode from their search distribution '
  '(given the context of that episode), run the policy with them, and update the distribution from exactly the pairs of parameters and discounted '
  'return of that data, with the same context: PGPE, RWR, REPS, constrained REPS, ePPO and MORE apply their published update.',
  ['inputs', 'histories', 'configurations'], 'every reward, gradient of the policy, discount factor, performance vector, context, step size and fit sequence',
  'tests run one seeded experiment per algorithm and compare the final weights.',
  ['mushroom_rl/algorithms/policy_search', 'mushroom_rl/rl_utils/optimizers.py'],
  [('gradient estimates', 'mushroom_rl/algorithms/policy_search/policy_gradient/reinforce.py:REINFORCE'),
   ('black-box episodes', 'mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py:BlackBoxOptimization'),
   ('REPS', 'mushroom_rl/algorithms/policy_search/black_box_optimization/reps.py:REPS'), ('MORE', 'mushroom_rl/algorithms/policy_search/black_box_optimization/more.py:MORE')],
  'policies, distributions and scipy minimisers are arbitrary functions behind their contracts; unbounded in values; up to 3 episodes of up to 3 steps, 2 weights, '
  '3 candidate parameters; the regression of MORE is checked on concrete inputs only (bounded)')

P('P25', 'Search distributions have the density, gradient and fits they document',
  'Every Gaussian search distribution draws from and evaluates exactly the Gaussian its parameters describe (mean; fixed, diagonal or Cholesky covariance), its entropy and '
  'log-density are those of that Gaussian, and the gradient of the log-density is the derivative with respect to the parameter vector, in the layout in which the '
  'parameters are read and set. The (weighted) maximum likelihood fit sets the documented weighted mean and covariance; the constrained fit maximises the documented '
  'Lagrangian of divergence and entropy decrease. The torch versions agree, and parameters never share memory with the vector of the caller.',
  ['inputs', 'configurations'], 'every mean, covariance factor, sample, weight and multiplier',
  'tests compare a few stored numbers of one fit.',
  ['mushroom_rl/distributions'],
  [('densities and gradients', 'mushroom_rl/distributions/gaussian.py:GaussianCholeskyDistribution.diff_log'),
   ('constrained fit', 'mushroom_rl/distributions/gaussian.py:GaussianDiagonalDistribution.con_wmle'), ('torch', 'mushroom_rl/distributions/torch_distribution.py')],
  'unbounded in values; 1 or 2 dimensions and 2 or 3 samples; numpy/scipy/torch densities and samplers, inverse, logarithm of the determinant and minimisers are '
  'assumed contracts; the 1-dimensional Lagrangian of the Cholesky fit is only checked on concrete inputs (bounded)')

P('P26', 'Parametric policies have the documented distribution, gradient and state',
  'Every parametric policy draws its actions from exactly the distribution that it evaluates: the Gaussian with the mean of its regressor in the state and the fixed, diagonal or '
  'state-dependent covariance; the clipped Gaussian; the Boltzmann distribution of the logits; the Ornstein-Uhlenbeck recursion of its policy state; '
  'the regressor output itself when deterministic; the movement primitive at its phase. The log gradient is the derivative of the log-density with respect to the weights in the layout in '
  'which weights are read and set, and weights read back as set without sharing memory with the caller. Policy states handed in are never changed; a reset '
  'restores the initial one, and a vector of policies acts, resets and takes its weights row by row.',
  ['inputs', 'histories', 'configurations'], 'every state, action, weight vector, covariance, temperature, noise sample, policy state and reset mask',
  'tests compare a few stored actions and gradients of one seed.',
  ['mushroom_rl/policy'],
  [('Gaussian policies', 'mushroom_rl/policy/gaussian_policy.py:AbstractGaussianPolicy'), ('noise', 'mushroom_rl/policy/noise_policy.py:OrnsteinUhlenbeckPolicy'),
   ('torch policies', 'mushroom_rl/policy/torch_policy.py:GaussianTorchPolicy'), ('vector of policies', 'mushroom_rl/policy/vector_policy.py:VectorPolicy'),
   ('movement primitives', 'mushroom_rl/policy/promps.py:ProMP')],
  'unbounded in values; 2 state dimensions, 1 or 2 action dimensions, up to 3 vectorised policies; scipy/numpy/torch densities and samplers, inverse and Cholesky are '
  'assumed contracts; the categorical wrapper is checked on concrete inputs only (bounded)')

P('P27', 'Actor-critic algorithms compute the published critic targets and actor updates',
  'One fit of stochastic actor-critic (with or without average reward) and COPDAC-Q moves critic, advantage and policy weights by the published '
  'recursion of each transition, without bootstrap from absorbing states and with traces that restart at each episode. DDPG, TD3 and SAC fit the critic to reward plus discounted target '
  'value (target networks, smoothed and clipped target action, minimum of the critics, entropy term of the temperature), zero for absorbing states, update the actor along the value of its own '
  'action in exactly the documented steps, and move the targets by tau. A2C, PPO and TRPO fit the value to and step the policy on the documented losses of the advantages of the data (clipped ratio, '
  'entropy, trust region with a line search that only accepts an improvement within the divergence bound). The given parameter dictionaries are left as they are.',
  ['inputs', 'histories', 'configurations'],
  'every batch, network output, weight, temperature, clipping range, noise sample, delay and line search outcome',
  'tests run one seeded experiment per algorithm and compare the final weights; two of the algorithms never trained in them.',
  ['mushroom_rl/algorithms/actor_critic'],
  [('classic', 'mushroom_rl/algorithms/actor_critic/classic_actor_critic/stochastic_ac.py:StochasticAC.fit'),
   ('off-policy', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py:DDPG.fit'), ('soft actor-critic', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py:SAC'),
   ('proximal', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py:PPO'), ('trust region', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py:TRPO')],
  'networks, policies, replay memory and optimisers are arbitrary functions behind their contracts; unbounded in values; any batch for off-policy, 3 samples on-policy; '
  'autograd gradients checked on concrete inputs only (bounded); conjugate gradient for 2 parameters')


P('P28', 'Parallel environments: every command reaches its copy and every reply its row',
  'A vectorized environment of n worker processes builds n independent copies and, for any mask, sends reset, step and render exactly to the masked copies, each with its own row of '
  'the actions or initial states; rows of observations, rewards, absorbing flags, information and frames hold the reply of the copy of the same index, untouched rows of a masked '
  'step keep the documented neutral values, no call waits for a reply that nobody sends, and no reply is left behind. The single-environment interface talks to the default copy only, seeding, stopping and closing '
  'reach every copy, and recording writes each frame to the recorder of its environment. A worker executes each command once, in order, and answers the commands that expect an answer.',
  ['inputs', 'histories', 'schedules'],
  'every mask, action, reply, initial state, command sequence of a worker, and number of copies',
  'tests run one seeded environment whose copies are alike and all active, so rows of a partial mask are never compared.',
  ['mushroom_rl/core/multiprocess_environment.py', 'mushroom_rl/core/vectorized_env.py', 'mushroom_rl/core/vectorized_core.py'],
  [('routing', 'mushroom_rl/core/multiprocess_environment.py:MultiprocessEnvironment.step_all,reset_all'), ('worker', 'mushroom_rl/core/multiprocess_environment.py:_env_worker'),
   ('recording', 'mushroom_rl/core/vectorized_core.py:VectorCore')],
  'unbounded in values, masks and replies; 2 and 3 copies; worker histories of 1 and 2 commands; pipes and processes are assumed contracts (in order, one reply per command that asks for it)')

P('P29', 'Sequences for recurrent agents are consecutive steps of one episode',
  'Every sequence sampled from the sequence replay memory, and every sequence recurrent PPO trains on, ends at the transition it is drawn for and goes back over the consecutive preceding '
  'transitions of the same episode, at most the truncation length (and not before the first slot of the memory), never across the end of an episode nor across the place where a full memory is overwritten; its length is reported, the rest is '
  'zero padding, and previous actions and policy states are those of the step before (zero at the start of an episode). Reward, absorbing and last flags are the ones of the final '
  'transition. Recurrent PPO fits its critic to the targets of these sequences and steps its policy on the clipped surrogate with entropy bonus over all of them, once per epoch.',
  ['inputs', 'histories', 'configurations'],
  'every stream of transitions, episode boundaries, fill level of the memory, sampled index, truncation length, and network output',
  'tests train one recurrent agent for a few episodes from one seed and look only at the final weights; a full memory is never reached.',
  ['mushroom_rl/rl_utils/replay_memory.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py'],
  [('sequence memory', 'mushroom_rl/rl_utils/replay_memory.py:SequenceReplayMemory'), ('recurrent PPO', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py:PPO_BPTT')],
  'unbounded in values and episode boundaries; capacity 4 with up to 6 added transitions, truncation 2 and 3; recurrent PPO on up to 4 transitions, truncation 1 to 3; networks are arbitrary functions')


P('P30', 'Collectors, loggers and the registry return exactly what they were given',
  'A logger keeps, for every quantity, one file with every value reported for it, in order; a logger that appends continues the files with its own suffix and neither reads nor changes those '
  'of other loggers in the same folder; the best agent is saved exactly when its performance is not below the best reported so far, and the agent of an epoch under its own name. '
  'A dataset collector holds the transitions of all datasets given to it since it was last cleaned, independent of them; value and parameter collectors hold the values at the time of each '
  'call and do not advance schedules. An environment is made by its registered name, with the dot-separated parts of the name before the other arguments. Numerical gradients are central '
  'differences and leave the parameters as they were. Stacked frames read as the array of their frames.',
  ['inputs', 'histories', 'configurations'],
  'every value and interleaving of the reports of two loggers, every dataset, table and schedule',
  'tests log three values with two numeric suffixes and compare one collected run with stored numbers.',
  ['mushroom_rl/core/logger/data_logger.py', 'mushroom_rl/utils/callbacks/collect_dataset.py', 'mushroom_rl/utils/callbacks/collect_q.py', 'mushroom_rl/utils/callbacks/collect_max_q.py',
   'mushroom_rl/utils/callbacks/collect_parameters.py', 'mushroom_rl/core/environment.py', 'mushroom_rl/utils/numerical_gradient.py', 'mushroom_rl/utils/frames.py'],
  [('data logger', 'mushroom_rl/core/logger/data_logger.py:DataLogger'), ('collectors', 'mushroom_rl/utils/callbacks/collect_dataset.py:CollectDataset'),
   ('registry', 'mushroom_rl/core/environment.py:Environment.make')],
  'unbounded in values and dataset lengths; up to 3 reports of two loggers over one folder (the folder and np.save/np.load are a model of the file system), up to 3 agents; frames are a bounded check')

P('P31', 'Environments on external simulators step them as declared and report their state',
  'A step of a MuJoCo or PyBullet environment drives exactly the declared actuators with the (preprocessed, and for a controller recomputed at every intermediate step from the current state) action, '
  'advances the simulator by exactly the declared intermediate steps and substeps, which make up the declared control period, runs each hook where it is documented, and returns the observation of '
  'the state reached with the reward of that transition and the absorbing flag of that state. A reset returns the simulator to its start (or puts the joints where the given state says) and returns '
  'the observation of that state; several MuJoCo models are used in turn (or at random), each from its own start, and must agree in their spaces. Observations list exactly the declared quantities in '
  'the declared order, found under their name and within the limits reported for it, also after entries were removed or added; data are read from and written to exactly the named object; contacts are '
  'reported exactly between the given groups; action bounds are those of the actuators in their control mode. The Gym and dm_control interfaces hand over every action and observation unchanged, '
  'start in the given state, use the own time limit of the environment as default horizon only, and declare its spaces.',
  ['inputs', 'histories', 'configurations'],
  'every simulator state, action, hook and number of intermediate steps and substeps',
  'tests run each simulator for a few steps with one intermediate step and compare one stored trajectory; a given initial state, several models, pixels or removed entries never occur.',
  ['mushroom_rl/environments/mujoco.py', 'mushroom_rl/utils/mujoco/observation_helper.py', 'mushroom_rl/environments/pybullet.py', 'mushroom_rl/utils/pybullet/index_map.py',
   'mushroom_rl/utils/pybullet/contacts.py', 'mushroom_rl/utils/pybullet/joints_helper.py', 'mushroom_rl/environments/gym_env.py', 'mushroom_rl/environments/dm_control_env.py'],
  [('MuJoCo step', 'mushroom_rl/environments/mujoco.py:MuJoCo.step'), ('observation layout', 'mushroom_rl/utils/mujoco/observation_helper.py:ObservationHelper'),
   ('PyBullet step', 'mushroom_rl/environments/pybullet.py:PyBullet.step'), ('PyBullet maps', 'mushroom_rl/utils/pybullet/index_map.py:IndexMap'),
   ('Gym', 'mushroom_rl/environments/gym_env.py:Gym'), ('dm_control', 'mushroom_rl/environments/dm_control_env.py:DMControl')],
  'unbounded in simulator states, actions, bounds and the numbers of intermediate steps and substeps (loop invariant over the real step loop); three specifications of up to 6 quantities per simulator, '
  'up to 3 models and 2 contacts; the simulators are ghost objects under an assumed contract, exercised against the real MuJoCo and Gym in two bounded contracts')
