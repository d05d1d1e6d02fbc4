"""The properties, and what their checks are. See make_manifest.py."""

NOTES = (
    'All checks are seeded searches over simulated histories; check.py C01 '
    '--show N prints a run, check.py --replay FILE replays a violation. No '
    'hooks in /repo: every seam used already exists (injected rate functions, '
    'rngs, adapters, observers, detectors, agents, paths) or belongs to the '
    'interpreter (time module, sys.addaudithook, urllib opener, resource '
    'limits).')

SIMNOTE = ('Seeded search, not exhaustive: quick explores a few hundred '
           'histories, thorough thousands. Trusts numpy, scipy, scikit-learn, '
           'shapely and the harness model of the documented behaviour. ')

PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, observe,
         technique='', note='', **kw):
  PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                    quant=quant, why=why, files=files, mech=mech,
                    observe=observe, technique=technique, note=note, **kw))


prop(
    'C01', 'A seed determines an episode, whatever the process did before',
    'After an environment is seeded and reset, everything a user can observe '
    '(time steps, microscope observations, images, goals, simulated time, '
    'random-agent actions) is a function of the configuration, the seed and '
    'the actions alone. Earlier episodes, crashed steps, attached observers, '
    'other users of the global random state, wall-clock jumps, the process '
    'and its hash seed have no influence.',
    ['histories', 'fault_sequences', 'configurations'],
    'for all configurations, seeds, action sequences, earlier histories of the '
    'environment (including steps that crashed half way) and disturbances of '
    'the process',
    'Tests reset a fresh environment a few times with one seed; they never '
    'compare a polluted environment with a fresh one over a whole history.',
    ['putting_dune/putting_dune_environment.py', 'putting_dune/simulator.py',
     'putting_dune/graphene.py', 'putting_dune/goals.py',
     'putting_dune/action_adapters.py', 'putting_dune/imaging.py'],
    [('one generator per environment, re-created by seed()',
      'putting_dune_environment.py:PuttingDuneEnvironment.seed'),
     ('every reset re-creates material, field of view, goal and beam state',
      'simulator.py:PuttingDuneSimulator.reset')],
    ['PuttingDuneEnvironment.reset/step', 'last_microscope_observation'],
    'differential replay of a seed in a fresh and in a polluted world',
    SIMNOTE + 'Bit-exact comparison within one process and across processes '
    'with different hash seeds.')

prop(
    'C02', 'Interleaved environments and agents behave as if alone',
    'Any number of environments and agents, driven in one process in any '
    'interleaving, each show exactly what they show when driven alone. A '
    'crash inside one of them does not affect the others.',
    ['schedules', 'fault_sequences', 'configurations'],
    'for all sets of environments, interleavings of their operations and '
    'crashes in neighbours',
    'No test runs two environments interleaved.',
    ['putting_dune/run_helpers.py', 'putting_dune/putting_dune_environment.py',
     'putting_dune/simulator.py', 'putting_dune/experiments/registry.py'],
    [('no module-level mutable state; every object is built per environment',
      'run_helpers.py:create_putting_dune_env')],
    ['PuttingDuneEnvironment.reset/step'],
    'seeded scheduler interleaving whole environments, compared with solo runs',
    SIMNOTE)

prop(
    'C03', 'Dynamics conserve atoms and move the silicon one bond at a time',
    'At every moment the material is the same sheet of atoms at fixed '
    'positions, all carbon but exactly one silicon. The silicon changes place '
    'only through reported transitions, each of which exchanges it with one of '
    'its three nearest neighbours; grids handed out earlier never change, and '
    'two grids compare equal exactly if they show the same atoms in the same '
    'places, in whatever order. '
    'This stays true when an exposure fails half way.',
    ['histories', 'fault_sequences', 'inputs'],
    'for all histories of resets, exposures and images, at all points of '
    'every exposure, including failing rate functions',
    'Tests check single transitions for hand-picked positions; not whole '
    'histories, crash points or grids retained by observers.',
    ['putting_dune/graphene.py', 'putting_dune/simulator.py'],
    [('successor states built as one swap per neighbour',
      'graphene.py:PristineSingleSiGrRatePredictor'),
     ('transition loop', 'graphene.py:PristineSingleDopedGraphene.apply_control'
      )],
    ['Material.grid', 'SimulatorObserver.observe_transition', 'observation grid'],
    'seeded histories with crashes injected inside exposures; invariants '
    'after every event',
    SIMNOTE)

prop(
    'C04', 'Transitions follow the configured rates',
    'The silicon leaves its site after an exponentially distributed exposure '
    'time with the total rate that the rate function states for that beam and '
    'silicon position, and picks each destination in proportion to its rate. '
    'Splitting an exposure changes nothing, zero rate means never, and this '
    'holds for exposures of any length.',
    ['inputs', 'histories'],
    'for all rate functions, beam positions, exposure durations and splittings',
    'Tests check that a transition happens for one rate and that none happens '
    'for rate zero; distributions are not compared.',
    ['putting_dune/graphene.py', 'putting_dune/simulator.py'],
    [('exponential waiting time and destination sampling',
      'graphene.py:PristineSingleDopedGraphene.apply_control')],
    ['SimulatorObserver.observe_transition', 'Material.grid'],
    'thousands of simulated exposures against a reference continuous-time '
    'Markov chain',
    SIMNOTE + 'Statistical: deviations below about six standard errors of '
    'the sampled executions are not seen.')

prop(
    'C05', 'Simulated time is accounted for exactly',
    'The elapsed time of every observation is the sum of the dwell times '
    'applied plus one image duration per image taken in that step; every '
    'transition is reported at a time within its own exposure, in order; the '
    'time-based reward discount follows the elapsed time. The wall clock has '
    'no influence.',
    ['histories', 'fault_sequences', 'inputs'],
    'for all histories of exposures, images, resets, crashes and wall-clock '
    'behaviours',
    'Tests check one or two steps with fixed dwell times.',
    ['putting_dune/simulator.py', 'putting_dune/graphene.py',
     'putting_dune/goals.py'],
    [('elapsed time accumulation',
      'simulator.py:PuttingDuneSimulator.step_and_image'),
     ('time-proportional discount', 'goals.py:SingleSiliconGoalReaching')],
    ['MicroscopeObservation.elapsed_time', 'observe_transition'],
    'seeded histories under a simulated process clock; exact accounting model',
    SIMNOTE)

prop(
    'C06', 'The field of view keeps the silicon visible and shows the truth',
    'Every observation lists exactly the atoms of the material inside its '
    'field of view, at their true relative positions. The field of view is '
    'square, centred on the silicon at reset, keeps its size during an episode '
    'and is re-centred, with a second image, exactly when the silicon has left '
    'the central half. Views derived by shifting, zooming and resizing keep '
    'their centre and size accordingly, select the atoms inside them, and '
    'convert points, grids and controls between the frames of microscope and '
    'material, in both directions, without changing anything else.',
    ['histories', 'fault_sequences'],
    'for all trajectories of the silicon, incl. to the edge of the sheet and '
    'with failed exposures',
    'Tests check one re-centring.',
    ['putting_dune/simulator.py', 'putting_dune/graphene.py',
     'putting_dune/microscope_utils.py'],
    [('re-centring rule', 'simulator.py:PuttingDuneSimulator.step_and_image'),
     ('atom selection', 'graphene.py:get_atoms_in_bounds')],
    ['MicroscopeObservation'],
    'seeded histories dragging the silicon; view compared with the full '
    'material',
    SIMNOTE)

prop(
    'C07', 'Observers see the whole history and do not perturb it',
    'Replaying the notifications an observer receives reconstructs the state '
    'of the material and the field of view at any time, in true order, with '
    'controls in the material frame that keep their dwell time and beam '
    'settings. All observers attached at the same time receive the same '
    'events, and attaching or removing observers changes nothing else.',
    ['histories', 'fault_sequences', 'schedules'],
    'for all histories, attach/detach points and failing exposures',
    'Tests check that one observer is called.',
    ['putting_dune/simulator.py', 'putting_dune/simulator_observers.py',
     'putting_dune/graphene.py', 'putting_dune/microscope_utils.py'],
    [('observer notification', 'simulator.py:PuttingDuneSimulator'),
     ('event recorder', 'simulator_observers.py:EventObserver')],
    ['SimulatorObserver callbacks', 'EventObserver.events'],
    'seeded histories run twice (observed and unobserved); event stream '
    'replayed into a reference state',
    SIMNOTE)

prop(
    'C08', 'Environments keep the dm_env episode protocol, even after failures',
    'Every sequence of reset and step calls produces first, mid and last time '
    'steps in legal order, with values inside the declared specs; a step '
    'before the first reset or after the end of an episode starts a new one; '
    'the step limit truncates at exactly its count, and a goal that gives up '
    'at once, with the discount unchanged. An operation that raised leaves the environment able to '
    'start a proper episode.',
    ['histories', 'fault_sequences', 'configurations'],
    'for all sequences of operations and failures at any operation',
    'Tests run dm_env conformance for a few steps of one configuration '
    'without failures.',
    ['putting_dune/putting_dune_environment.py',
     'putting_dune/run_helpers.py'],
    [('reset-on-next-step flag',
      'putting_dune_environment.py:PuttingDuneEnvironment.step'),
     ('step limit', 'run_helpers.py:StepLimitWrapper')],
    ['TimeStep', 'observation_spec', 'action_spec'],
    'seeded operation/failure histories against a protocol automaton',
    SIMNOTE)

prop(
    'C09', 'Goals are reachable atoms, and success means being there',
    'The goal of an episode is a visible carbon atom within the requested '
    'distance range of the silicon, each such atom equally likely, and does '
    'not move during the episode; a reset fails only if there is none. The '
    'episode ends exactly at the first observation where the silicon is within '
    'half a bond of the goal, with the reward of that step discounted by its '
    'elapsed time, and zero before; the goal shown to the agent is the true '
    'displacement. A lost silicon is reported as such.',
    ['histories', 'fault_sequences', 'configurations'],
    'for all histories, goal ranges and detector faults',
    'Tests check hand-placed goals.',
    ['putting_dune/goals.py', 'putting_dune/putting_dune_environment.py',
     'putting_dune/feature_constructors.py'],
    [('goal choice', 'goals.py:SingleSiliconGoalReaching.reset'),
     ('reward and terminal',
      'goals.py:SingleSiliconGoalReaching.calculate_reward_and_terminal')],
    ['TimeStep', 'goal_position_material_frame'],
    'seeded episodes with detector faults against a geometric reference goal',
    SIMNOTE)

prop(
    'C10', 'Actions become the intended beam commands; features show the truth',
    'For every field of view, action and adapter history, the issued command '
    'has exactly the position and dwell time the adapter documents, inside '
    'the field of view and inside the configured limits, and earlier commands '
    'never change; the actions offered reach as far in every direction. '
    'With no silicon, or an ambiguous one, silicon-relative '
    'adapters and feature constructors refuse rather than guess.',
    ['histories', 'inputs', 'fault_sequences'],
    'for all action sequences (also out of bounds), fields of view, adapter '
    'resets and detector faults',
    'Tests check a few actions in one field of view.',
    ['putting_dune/action_adapters.py', 'putting_dune/feature_constructors.py',
     'putting_dune/microscope_utils.py', 'putting_dune/agents/agent_lib.py'],
    [('action to control conversion', 'action_adapters.py'),
     ('features', 'feature_constructors.py')],
    ['ActionAdapter.get_action', 'FeatureConstructor.get_features'],
    'seeded observation/action histories with detector faults against a '
    'reference geometry',
    SIMNOTE)

prop(
    'C11', 'Evaluation reports exactly the episodes that were played',
    'evaluate() returns one result per seed, in order, each equal to the '
    'result of playing that seed alone in a fresh environment with the same '
    'agent: return, number of actions, whether the goal was reached, simulated '
    'and agent time. The timeout and step limit end an episode at the first '
    'step that exceeds them; aggregates are the means of the results. An agent, '
    'environment or disk that fails during an episode leaves the environment '
    'usable and without left-over observers.',
    ['histories', 'fault_sequences', 'configurations'],
    'for all suites, agents, latencies, timeouts, video settings and failures '
    'at any step',
    'Tests evaluate a random agent for a few steps and look at the shape of '
    'the result.',
    ['putting_dune/eval_lib.py', 'putting_dune/run_helpers.py',
     'putting_dune/plotting_utils.py'],
    [('episode loop', 'eval_lib.py:evaluate'),
     ('aggregation', 'eval_lib.py:aggregate_results')],
    ['EvalResult', 'aggregate_results', 'video files'],
    'seeded evaluation suites under a simulated process clock with slow and '
    'failing agents, environments and disks; an independent episode loop as '
    'reference',
    SIMNOTE + 'Most runs replace the matplotlib renderer by a digest writer.')

prop(
    'C13', 'The live microscope agent survives detector faults',
    'Driving the microscope through MicroscopeAgent, every observation leads '
    'to the control that the configured agent, features, goal and adapter '
    'imply for it; the first step after a reset is a first step, later ones '
    'carry the reward and the verdict of the goal. When the detector loses '
    'the silicon the agent asks for a rescan instead of acting, and the session '
    'continues from the next usable observation; nothing depends on the order '
    'in which the detector lists atoms.',
    ['histories', 'fault_sequences', 'schedules'],
    'for all sessions, detector faults, resets and agent failures',
    'Tests drive two or three steps with a perfect detector.',
    ['putting_dune/microscope_agent.py', 'putting_dune/goals.py',
     'putting_dune/feature_constructors.py', 'putting_dune/action_adapters.py'],
    [('step and rescan', 'microscope_agent.py:MicroscopeAgent.step'),
     ('reset', 'microscope_agent.py:MicroscopeAgent.reset')],
    ['MicroscopeAgent.reset/step return value', 'time steps seen by the agent'],
    'seeded live sessions: the simulator plays the sample, a faulty detector '
    'stands between it and the agent; twins of the stateful parts as reference',
    SIMNOTE)

prop(
    'C14', 'The session log on disk is the session that happened',
    'Wrapping the live agent in the logger changes no control. After any flush '
    'that succeeded, and at the end of the session, the files hold every '
    'completed and open episode exactly once and in order: observations, '
    'controls, rewards, terminals, goals and episode ids, which number the '
    'stored trajectories from zero. Rescans, agent '
    'failures, repeated flushes, earlier flushes that failed for lack of disk '
    'space and an exception in the session neither lose nor duplicate nor '
    'mislabel anything.',
    ['histories', 'fault_sequences', 'crash_points'],
    'for all sessions, flush points and disk failures',
    'Tests log one perfect session and flush once on a healthy disk.',
    ['putting_dune/microscope_agent.py', 'putting_dune/io.py',
     'putting_dune/microscope_utils.py'],
    [('logger', 'microscope_agent.py:MicroscopeAgentLogger'),
     ('record writer', 'io.py:write_records')],
    ['trajectory records and csv in the log directory'],
    'seeded live sessions run bare and logged, with disk quotas and failing '
    'file operations; log read back and compared with the session model',
    SIMNOTE)

prop(
    'C15', 'The record store loses nothing silently',
    'Records read from a file are exactly those last written successfully to '
    'it, in order, whatever else is read or written meanwhile. A full disk or '
    'a failing source makes the write raise; damage at rest makes the read '
    'raise; no read returns records that were never written, and none ends '
    'early as if the file were complete.',
    ['histories', 'fault_sequences', 'schedules', 'crash_points'],
    'for all histories of writes, reads, interleaved readers, full disks, torn '
    'files and flipped bits',
    'Tests write and read one small file on a healthy disk.',
    ['putting_dune/io.py', 'putting_dune/microscope_utils.py'],
    [('record reader and writer', 'io.py:read_records, write_records')],
    ['io.read_records', 'io.write_records'],
    'seeded store histories with disk quotas, torn files and bit flips '
    'against a dictionary model',
    SIMNOTE + 'The TFRecord format itself takes a remainder of fewer than 12 '
    'bytes as the end of the file; such truncations are not counted.')

prop(
    'C16', 'Recorded data means the same after storage, any number of times',
    'Observations, controls, transitions, trajectories, drifts, grids, fields '
    'of view and labelled images read back from messages or files are equal to '
    'what was stored (floating point values to the stored precision), with '
    'absent parts still absent, after any number of storage hops; further hops '
    'change nothing at all.',
    ['inputs', 'histories', 'fault_sequences'],
    'for all objects with any combination of optional parts and dtypes, all '
    'chains of storage hops, retries after full disks',
    'Tests round-trip a few complete objects once.',
    ['putting_dune/microscope_utils.py', 'putting_dune/io.py',
     'putting_dune/geometry.py', 'putting_dune/putting_dune.proto'],
    [('to_proto/from_proto pairs', 'microscope_utils.py')],
    ['to_proto', 'from_proto', 'io.read_records'],
    'seeded chains of storage hops with disk faults and restarts in between',
    SIMNOTE)

prop(
    'C17', 'Aligning recordings removes the drift and changes nothing else',
    'The alignment job turns every recorded session, exactly once and in '
    'order, into the same session with each field of view moved to where the '
    'image was really taken, as the network measures it: by all of the '
    'measured drift, whatever the step size and number of passes. The network '
    'sees, per session, only that session\'s latest images, each as seen at '
    'the present field of view, whatever range the images have; an image with '
    'nothing in it costs only its own measurement. Atoms are those recorded, '
    'or on request those '
    'found in the image; images, labels, controls and times stay as recorded. '
    'A job that fails says so and leaves sources untouched; repeating it '
    'succeeds.',
    ['histories', 'configurations', 'fault_sequences'],
    'for all recorded sessions with any drift, numbers of sessions and files, '
    'alignment settings, network failures, damaged sources and full disks',
    'Tests align one two-frame session with a stub aligner; no test runs the '
    'job on files.',
    ['putting_dune/pipeline/align_trajectories.py',
     'putting_dune/alignment.py', 'putting_dune/io.py'],
    [('shift accumulation over a session',
      'pipeline/align_trajectories.py:do_alignment'),
     ('history of images cropped to the present field of view',
      'alignment.py:ImageAligner.__call__')],
    ['align_trajectories.main', 'do_alignment', 'network input'],
    'drifting sessions aligned by the real job around a network that '
    'recognises every image and measures its true drift; disk and network '
    'faults, shuffled listings',
    SIMNOTE + 'The trained network is replaced; in hybrid mode the '
    'result may differ from the network by the half bond length its post-processing is allowed.')

prop(
    'C21', 'Reconciling observations finds the drift and harms no input',
    'Fed the successive observations of one drifting sample, the reconciler '
    'reports each observation\'s drift against what it saw before and returns '
    'a grid with every observed atom once, in place, with its element. What it '
    'was given is never changed, later answers depend only on observations and '
    'shifts since the last reset, the state stays within its history length, '
    'and estimating a shift answers the same whatever was asked before.',
    ['histories', 'fault_sequences'],
    'for all sequences of observations, detector faults, resets and state '
    'shifts, for all settings of the reconciler',
    'Tests reconcile two perfect observations once.',
    ['putting_dune/alignment.py', 'putting_dune/geometry.py'],
    [('iterative closest points within lattice classes',
      'alignment.py:align_latest'),
     ('merging', 'alignment.py:naive_merge, clique_merge')],
    ['IterativeAlignmentFiltering.__call__', 'align_latest', 'naive_merge'],
    'seeded observation histories of a simulated drifting sample with detector '
    'faults, against the known drift and atoms',
    SIMNOTE + 'The estimate rests on a clustering heuristic that misjudges a '
    'few atoms in about one history in a thousand: single estimates must be '
    'right to 0.7 Å, 95% of the clean ones to 0.12 Å; after noisy '
    'observations only sanity is asked for.')

prop(
    'C23', 'Training examples show what happened in the recorded sessions',
    'Converting recordings into training data yields one transition per '
    'adjacent pair of observations of a session, with the controls applied '
    'between them in either recording convention, never across sessions. A '
    'transition becomes an example exactly if the silicon and its three '
    'neighbours can be followed, and then its beam position is relative to '
    'the silicon in the standard orientation, its label the neighbour the '
    'silicon went to, its dwell time, current and voltage those of the '
    'control. Stacking, symmetry augmentation, splits and bootstraps keep '
    'examples whole, keep test data out of training data and keep the physics '
    'under rotation and reflection. Listing order does not matter; damage and '
    'full disks raise; inputs stay unchanged.',
    ['histories', 'fault_sequences', 'inputs', 'configurations'],
    'for all recorded sessions, detector faults, storage layouts, listing '
    'orders, damaged files and full disks',
    'Tests convert a handful of hand-made transitions.',
    ['putting_dune/pipeline/train_rate_learner.py',
     'putting_dune/pipeline/trajectories_to_transitions.py',
     'putting_dune/rate_learning/data_utils.py',
     'putting_dune/rate_learning/learn_rates.py', 'putting_dune/io.py'],
    [('pairing of observations and controls',
      'pipeline/trajectories_to_transitions.py'),
     ('labelling', 'pipeline/train_rate_learner.py:transitions_to_datapoints'),
     ('augmentation and splits', 'rate_learning/data_utils.py, '
      'learn_rates.py:create_dataset_splits')],
    ['load_trajectories_from_records', 'trajectories_to_transitions',
     'transitions_to_datapoints', 'stack_data', 'augment_data'],
    'recorded simulated sessions with detector and disk faults, converted and '
    'compared with what the simulator did',
    SIMNOTE + 'Cases within 1e-3 Å of a decision threshold may go either way.')

prop(
    'C12', 'Every named experiment runs as announced',
    'Each training, evaluation and live experiment the registry names builds '
    'an agent whose every action is valid for its adapter: a control in the '
    'frame, beam range and dwell range of that experiment. The agent sees the '
    'observation the experiment defines, about the sample as it is. A greedy '
    'agent aims where its rate model moves the silicon towards the goal and '
    'not elsewhere; a lost silicon is reported as lost and not acted on. A run '
    'depends on its seed only, not on experiments built before or beside it. '
    'Registering a name that is taken changes nothing, asking for an unknown '
    'one raises. The evaluation program reports exactly the episodes it ran.',
    ['configurations', 'histories', 'fault_sequences'],
    'for every registered name, all seeds, samples, goals, detector faults and '
    'orders in which experiments are created',
    'Tests construct the experiments and run a step or two of some.',
    ['putting_dune/experiments/registry.py',
     'putting_dune/experiments/experiments.py',
     'putting_dune/agents/agent_lib.py',
     'putting_dune/feature_constructors.py', 'putting_dune/eval.py'],
    [('registry', 'experiments/registry.py'),
     ('agents', 'agents/agent_lib.py'),
     ('features', 'feature_constructors.py'), ('program', 'eval.py')],
    ['create_train_experiment', 'create_eval_experiment',
     'create_microscope_experiment', 'eval.main'],
    'seeded episodes of every named experiment in the simulated microscope, '
    'with detector faults, against a table of what each name promises',
    SIMNOTE + 'Learned policies are replaced by stub archives from a simulated '
    'web; random policies are judged for range and, pooled over all runs, for '
    'uniformity.')

prop(
    'C18', 'An interrupted download is never taken for a model',
    'Learned policies, the atom detector and the aligner fetch their models on '
    'first use. Whatever interrupts a download or its unpacking (a failing or '
    'truncated transfer, a damaged archive, a full disk, a crash between any '
    'two writes), the attempt raises or the process ends, and the next attempt '
    'fetches again: a model that loads is the published one, whole. A model '
    'that is there is not fetched again, and archive members never leave its '
    'directory.',
    ['crash_points', 'fault_sequences', 'histories'],
    'for all sequences of uses, network and disk faults and crash points',
    'Tests unpack one sound archive.',
    ['putting_dune/experiments/registry.py', 'putting_dune/atom_detector.py',
     'putting_dune/alignment.py', 'putting_dune/io.py'],
    [('unpacking', 'io.py:extract_model'),
     ('cache look-up', 'experiments/registry.py, AtomDetector.from_url, '
      'alignment.py')],
    ['extract_model', 'AtomDetector.from_url', 'ImageAligner.from_url'],
    'simulated web and disk: transfers fail, archives are damaged and the '
    'process crashes between any two writes; afterwards it starts again',
    SIMNOTE + 'The models are tiny SavedModels that tell their version.')

prop(
    'C19', 'Transition rates describe the physics, whatever its orientation',
    'Each rate model gives every bond of the silicon a finite non-negative '
    'rate, belonging to that neighbour: turning, moving or renumbering the '
    'sample and beam turns, moves or renumbers the rates with it, and for the '
    'reflection symmetric models so does mirroring. The human prior favours '
    'the neighbour its beam position is drawn for, and the mixture model is '
    'the mixture it was given. A saved mixture model reads back with equal '
    'rates; a damaged, short or missing file, a full disk or a crash gives an '
    'error or the old model, never another one. Synthetic training data and '
    'its augmentation agree with the rate model that generated them.',
    ['inputs', 'histories', 'crash_points'],
    'for all samples, orientations, beam positions, currents and exposures met '
    'in simulated sessions; for all crash points and damage of saved models',
    'Tests evaluate a few hand-made grids.',
    ['putting_dune/graphene.py', 'putting_dune/rate_learning/data_utils.py',
     'putting_dune/geometry.py'],
    [('rate models', 'graphene.py:PristineSingleSiGrRatePredictor, '
      'HumanPriorRatePredictor, GaussianMixtureRateFunction'),
     ('synthetic data', 'rate_learning/data_utils.py:'
      'generate_synthetic_data')],
    ['PristineSingleSiGrRatePredictor.__call__',
     'GaussianMixtureRateFunction.__call__', 'generate_synthetic_data'],
    'every rate evaluation during simulated exposures against independent '
    'formulas and transformed copies of the sample; storage faults on models',
    SIMNOTE)

prop(
    'C24', 'The detector reports the atoms an image shows, each once',
    'For every frame whose atoms the segmentation recognises, the detector '
    'reports each atom in view once, with its element, where it is to within '
    'its own resolution, and nothing where there is none: also for frames '
    'without silicon, without carbon, blank, with dead rows, single-pixel '
    'blobs, any frame size, numeric type, gain and offset. What was detected '
    'can be stored as it is. The frame is not changed, and an agent that sees the sample through the detector acts '
    'exactly on the frames that show the silicon.',
    ['inputs', 'histories', 'fault_sequences'],
    'for all histories of frames of a simulated sample and all listed frame '
    'faults',
    'Tests detect atoms with a mocked model on one image.',
    ['putting_dune/atom_detector.py', 'putting_dune/microscope_agent.py'],
    [('blobs', 'atom_detector.py:compute_centroids'),
     ('detection', 'atom_detector.py:AtomDetector.__call__')],
    ['AtomDetector', 'MicroscopeAgent.step'],
    'live simulated sessions seen only through degraded camera frames and the '
    'detector, compared with the atoms painted into each frame',
    SIMNOTE + 'The segmentation net is a stub SavedModel with saturated '
    'logits that knows an atom by its brightness.')

prop(
    'C20', 'A learned rate model is the model that was trained, wherever it is '
    'used',
    'A rate model that was trained, distilled, saved and loaded predicts the '
    'same rates as before at every beam position, context, rotation and order '
    'of the neighbours, for the context it was packaged with and with the '
    'statistics it was trained with; predicting never changes the sample; a '
    'save that fails or crashes leaves the old or the new model, and a '
    'truncated or missing file never loads silently. What is learned is what '
    'was recorded: the neighbour that silicon goes to is the one predicted, '
    'every learner type trains on recorded sessions in any file order, stores '
    'the configuration it was given, and trains reproducibly from its seed.',
    ['inputs', 'histories', 'fault_sequences', 'crash_points'],
    'for all histories of training, distilling, exposing, saving with crashes '
    'and I/O errors, and loading, of all network shapes and context choices',
    'Tests train one model on one data set and check shapes.',
    ['putting_dune/rate_learning/learn_rates.py',
     'putting_dune/rate_learning/data_utils.py',
     'putting_dune/pipeline/train_rate_learner.py'],
    [('model', 'rate_learning/learn_rates.py:LearnedTransitionRatePredictor'),
     ('frame', 'rate_learning/data_utils.py:standardize_beam_and_neighbors'),
     ('driver', 'pipeline/train_rate_learner.py:main')],
    ['LearnedTransitionRatePredictor.predict / apply_model / save / load',
     'train_rate_learner.main'],
    'seeded histories of one model through training, distillation, faulty '
    'saves and reloads in a fresh predictor, exposures of a simulated sample '
    'driven by its predictions, against its own rates in the standard '
    'orientation',
    SIMNOTE + 'Networks are small; bit flips inside a stored model are not '
    'injected because the format has no checksum.')

prop(
    'C25', 'Images and masks show the atoms that are there, where they are',
    'Every image taken in a session shows the sample as it is after the '
    'exposures of that step, in the field of view that is reported with it, '
    'upright and not displaced by more than the scan jitter; clean images show '
    'each atom as a round spot at its position, as bright as its element asks '
    'for, for any image size, shape of the field of view and border; masks '
    'mark the pixels of each atom with its atomic number. Images are finite, '
    'within [0, 1] and blank without atoms; each noise step does what its '
    'parameter says, leaves its input alone and depends on nothing but its '
    'input and its generator, also when several users render at once and after '
    'a rendering or an exposure failed.',
    ['inputs', 'histories', 'interleavings', 'fault_sequences'],
    'for all samples, fields of view and image parameters; for all sessions '
    'with crashes during exposures and renderings',
    'Tests check the type, shape and range of one image.',
    ['putting_dune/imaging.py', 'putting_dune/simulator.py'],
    [('rendering', 'imaging.py:generate_clean_image'),
     ('mask', 'imaging.py:generate_grid_mask'),
     ('noise', 'imaging.py:generate_stem_image'),
     ('session', 'simulator.py:PuttingDuneSimulator._generate_image')],
    ['PuttingDuneSimulator.step_and_image', 'generate_stem_image',
     'generate_grid_mask'],
    'simulated sessions and interleaved renderings, each image compared with '
    'an independent rendering of the true sample (cross-correlation for noisy '
    'images, pixel by pixel for clean images and masks)', SIMNOTE)

prop(
    'C26', 'Uploading recordings keeps every session, as it was recorded',
    'Uploading a directory of microscope recordings puts every readable '
    'session into the bucket exactly once, under a name of its own, whole: '
    'its frames in order, with the images, the atoms and the silicon that were '
    'labelled, the field of view with the drift that was recorded up to that '
    'frame, the exposures in the frame of the microscope and the time they '
    'took. An unreadable recording costs only itself; after a failure of the '
    'network or the disk, uploading again completes the bucket without '
    'changing what is in it. Read back, the sessions give the transitions that '
    'truly happened. A directory without recordings is reported as a '
    'failure.',
    ['inputs', 'histories', 'crash_points', 'fault_sequences'],
    'for all sets of recordings, layouts of the directory, damaged files, read '
    'errors and network failures',
    'No test covers the upload.',
    ['putting_dune/pipeline/upload_microscope_data.py',
     'putting_dune/pipeline/trajectories_to_transitions.py',
     'putting_dune/microscope_utils.py'],
    [('one blob per recording, named after its path',
      'pipeline/upload_microscope_data.py:main'),
     ('conversion of the recording',
      'pipeline/upload_microscope_data.py:convert_dataset_to_proto'),
     ('transitions',
      'pipeline/trajectories_to_transitions.py:trajectories_to_transitions')],
    ['blobs in the bucket', 'Trajectory.from_proto_string'],
    'simulated sessions written in the format of the microscope and uploaded '
    'with injected damage and failures; the bucket is compared with what '
    'happened',
    SIMNOTE + 'Stubs: the bucket and riegeli (not installed here). Sessions of '
    'at most three frames are dropped by design.')

prop(
    'C27', 'Renderings, videos and rate plots show what truly happened',
    'A rendered environment shows the silicon, the carbon atoms, the goal and '
    'the beam where they are in the field of view at that moment. A video of a '
    'session has one frame for every exposure and one for the end, each with '
    'the state, the field of view, the beam, the image and the clock of that '
    'moment; an evaluation leaves such a video of every episode it ran. A plot '
    'of a rate function shows the rates it predicts. Drawing never changes the '
    'episode, the material or the figures of others, leaves no figure open, '
    'and works at every point of a session.',
    ['histories', 'inputs', 'fault_sequences'],
    'for all sessions, rendered at any points, with failing rates and drawing, '
    'interleaved with other environments and figures',
    'The tests draw a few pictures and do not look at them.',
    ['putting_dune/putting_dune_environment.py',
     'putting_dune/plotting_utils.py', 'putting_dune/eval_lib.py',
     'putting_dune/simulator_observers.py'],
    [('rendering', 'putting_dune_environment.py:PuttingDuneEnvironment.render'),
     ('video frames',
      'plotting_utils.py:generate_video_from_simulator_events'),
     ('rate plots', 'plotting_utils.py:plot_rate_along_neighbor_vector3'),
     ('events of a session', 'simulator_observers.py:EventObserver'),
     ('videos of episodes', 'eval_lib.py:evaluate')],
    ['pixels of render()', 'frames given to the movie writer', 'GIF files',
     'data of the plotted curves'],
    'simulated sessions are drawn and filmed with crashes in between; every '
    'picture is searched for what the state of the simulation says it shows',
    SIMNOTE + 'Stub: the movie writer (part of the runs write GIFs). Where the '
    'field of view moved after the exposure, the beam in renderings is not '
    'judged; the direction of angle 0 in arc plots is not documented and not '
    'judged.')

prop(
    'C28', 'A greedy agent finds its aim and brings the silicon to its goal',
    'Given a transition function, a greedy agent aims where the chance of '
    'moving the silicon to the chosen neighbour is largest within its bounds, '
    'up to its search resolution; given an aim and an offset, it uses exactly '
    'those. Every action is that aim, turned to the neighbour nearest the goal, '
    'plus normal noise of the given deviation, and never depends on other '
    'agents. In closed loop, in the environment or live behind a detector that '
    'loses the silicon, the silicon reaches its goal in as many exposures as '
    'this policy and the rate model imply: with certainty in the end, never '
    'getting stuck, and with that distribution.',
    ['histories', 'inputs', 'schedules', 'fault_sequences'],
    'for all rate models, goals, dwell times, ways to give the aim, crashes, '
    'lost detections and resets',
    'A unit test calls the agent once; whether goals are reached, and how soon, '
    'needs whole episodes against the distribution the physics implies.',
    ['putting_dune/agents/agent_lib.py', 'putting_dune/microscope_agent.py',
     'putting_dune/action_adapters.py', 'putting_dune/goals.py'],
    [('search for the aim', 'agents/agent_lib.py:GreedyAgent.find_argmax'),
     ('policy', 'agents/agent_lib.py:GreedyAgent.step'),
     ('live loop', 'microscope_agent.py:MicroscopeAgent.step'),
     ('beam positions', 'action_adapters.py:RelativeToSiliconMaterialFrame'
      'ActionAdapter'),
     ('goal reached', 'goals.py:SingleSiliconGoalReaching.calculate_reward_and_'
      'terminal')],
    ['actions', 'silicon and goal positions', 'exposures until the goal'],
    'simulated episodes with crashes, lost detections and resets; the '
    'exposures each needed are placed in the exact distribution of a Markov '
    'chain for the reference policy and physics, and pooled over all episodes; '
    'the aim is compared with a fine search of the reference rates',
    SIMNOTE + 'Stub: the detector in live runs and the transition function '
    'given to the agent. The learned rate model is left to C20.')

prop(
    'C29', 'An exported model is the best checkpoint, ready to be loaded',
    'Exporting a trained atom detector or image aligner packages the '
    'checkpoint with the best evaluation (most accurate detector; least loss '
    'plus drift error for the aligner), whatever other, unfinished or later '
    'checkpoints there are. The archive is what the detector and the aligner '
    'load: they unpack it, call it, and get what the network with those '
    'parameters answers. An earlier archive is only replaced if that was asked '
    'for, an interrupted export never leaves something that is taken for a '
    'model, and exporting changes neither the checkpoints nor the working '
    'directory, so any number of exports in one process are each right.',
    ['histories', 'crash_points', 'configurations', 'inputs'],
    'for all histories of checkpoints and exports, options, and points at '
    'which the disk fails or the process dies',
    'No test runs the exporters at all.',
    ['putting_dune/atom_detection/save_model.py',
     'putting_dune/image_alignment/save_model.py',
     'putting_dune/atom_detection/model.py',
     'putting_dune/image_alignment/model.py', 'putting_dune/atom_detector.py',
     'putting_dune/alignment.py', 'putting_dune/io.py'],
    [('export of detectors', 'atom_detection/save_model.py:save'),
     ('export of aligners', 'image_alignment/save_model.py:save'),
     ('unpacking', 'io.py:extract_model'),
     ('use', 'atom_detector.py:AtomDetector, alignment.py:ImageAligner')],
    ['archives', 'inputs and outputs of the loaded network', 'working '
     'directory', 'checkpoint directory'],
    'simulated trainings leave histories of real checkpoints; exports run '
    'into disk errors, full disks and crashes; each archive is loaded by the '
    'real detector or aligner and its answers compared with the network '
    'applied to the parameters of the best checkpoint',
    SIMNOTE + 'Networks have few features so that an export takes a second; '
    'parameters are random. Training itself is not importable offline. The '
    'installed jax lacks jax.tree, which the installed orbax needs; the '
    'harness provides it.')
