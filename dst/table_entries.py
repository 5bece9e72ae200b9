from dst.table import prop, not_applicable

prop('P01', 'A saved network survives later saves, disk faults and crashes',
     'A network that was saved to an XML file, alone or appended to others, is read back (by position or by name) with '
     'the same dimensions, name, parameter values and outputs, and nothing done to the live network afterwards changes '
     'the saved one. If a save fails or the process dies part-way, the file afterwards holds either everything it held '
     'before or everything the completed save would have held, and every network in it is still readable.',
     ['crash_points', 'fault_sequences', 'histories', 'programs'],
     'All networks that can be built from the public layer and connection types, all histories of save, append, '
     'mutate and read on a few files, all points at which a write can fail, be cut short or the process be killed.',
     'The tests write a handful of fixed networks once each to a healthy disk; they reach no failed or interrupted '
     'save, no second network of another shape in the same file, and few connection types.',
     ['pybrain/tools/customxml/handling.py', 'pybrain/tools/customxml/networkwriter.py',
      'pybrain/tools/customxml/networkreader.py', 'pybrain/structure/networks/network.py'],
     [('atomic replace of the XML file', 'pybrain/tools/customxml/handling.py'),
      ('recursive construction of networks from XML', 'pybrain/tools/customxml/networkreader.py')],
     ['NetworkWriter.writeToFile / appendToFile', 'NetworkReader.readFrom', 'Network.activate'],
     1500, 60000,
     'A run draws random networks (feed-forward, recurrent, nested, weight-shared, sliced connections) and a sequence '
     'of save/append/read/mutate operations on one or two files, with a disk error, a torn write or a process kill at '
     'a drawn file-system step of about half of the saves; after each fault the file is read back as a new process would.',
     'distinct (operation, fault mode, networks per file, save in doubt) tuples',
     ['network XML writer and reader', 'network, module and connection classes', 'xml.dom.minidom'],
     ['disk: open/write/rename/remove steps are numbered and failed by the simulator on a scratch directory',
      'process death: buffers of the dead process are dropped, completed system calls survive'],
     'deterministic simulation with crash and disk-fault injection, old-or-new oracle',
     'Seeded search over histories and crash/fault points; a killed process, not a power cut, is modelled.',
     assumptions=['A killed process loses user-space buffers but no completed system call (the kernel survives).'])

prop('P04', 'Datasets hold exactly the accepted samples, in order, over any history',
     'Over any history of adding, removing, splitting, copying, converting and iterating, a dataset contains exactly the '
     'samples whose addition succeeded, in order, divided into exactly the sequences that were marked, and every way of '
     'reading it (by index, marker, sequence, batch, field, or error measure) agrees with that content. A sample that is '
     'rejected (or whose source or evaluated function fails part-way) leaves all linked fields as they were and in step, '
     'empty sequences and access beyond the end are refused. Copies, parts of a split and reloaded datasets hold the same '
     'content and are independent.',
     ['histories', 'inputs', 'fault_sequences'],
     'All histories of dataset operations on all dataset kinds, dimensions, buffer sizes and vector formats, with faulty '
     'rows, failing row sources and failing evaluated functions anywhere in them.',
     'The doctest of the dataset module appends a few rows to a few kinds (and does not pass on this interpreter); no '
     'test removes a sequence, rejects a row, or interleaves operations.',
     ['pybrain/datasets/dataset.py', 'pybrain/datasets/sequential.py', 'pybrain/datasets/supervised.py',
      'pybrain/datasets/importance.py', 'pybrain/datasets/classification.py', 'pybrain/datasets/reinforcement.py',
      'pybrain/datasets/unsupervised.py'],
     [('buffers with an end marker per field, linked fields', 'pybrain/datasets/dataset.py'),
      ('sequence boundaries as a field of the dataset', 'pybrain/datasets/sequential.py')],
     ['addSample/appendLinked', 'getSequence/removeSequence/newSequence', 'splitWithProportion', 'copy/save/load',
      'evaluateMSE'],
     15000, 600000,
     'A run draws a dataset kind and dimensions and a history of up to 60 operations over up to four live datasets, '
     'checked against plain lists after the operations; most runs inject faulty rows, failing row sources or failing '
     'evaluated functions.',
     'distinct (kind, operation, size class, sequence count, vector format, faulty) tuples',
     ['all dataset classes', 'pickle'], ['row sources and evaluated functions (fail on schedule)', 'random generators (seeded)'],
     'deterministic simulation of operation histories with failing callers, refinement of a list model',
     'Seeded search over histories; single-threaded, faults are failing inputs and callbacks.')

prop('P02', 'A dataset saved to a file is loaded back whole, or the failure is reported',
     'A dataset saved to a file or stream is loaded back with the same kind, samples, order and sequence boundaries, and '
     'can be extended further; later changes to the live dataset do not change the file. A save that fails or is cut off by '
     'a crash leaves the file readable, holding either what it held before or the complete new dataset, and does not alter '
     'the dataset being saved. A truncated file or failing read is reported by an exception, never loaded as different data.',
     ['crash_points', 'fault_sequences', 'histories'],
     'All dataset kinds and contents, all histories of saving, loading, extending and overwriting files, all points where '
     'a write or read fails or is cut short or the process is killed.',
     'The only persistence test is a doctest on an in-memory stream that does not even pass on this interpreter; no test '
     'lets a save or load fail.',
     ['pybrain/utilities.py', 'pybrain/datasets/dataset.py', 'pybrain/datasets/supervised.py',
      'pybrain/datasets/classification.py', 'pybrain/datasets/reinforcement.py'],
     [('pickling with atomic replacement of the file', 'pybrain/utilities.py'),
      ('reduction of datasets to class, arguments and state', 'pybrain/datasets/dataset.py')],
     ['saveToFile/loadFromFile', 'saveToFileLike/loadFromFileLike'],
     20000, 200000,
     'A run draws datasets of random kinds and a history of save/load/extend/truncate operations on up to four files, '
     'with a disk error, torn write or process kill at a drawn file-system step of about half of the saves, failing '
     'streams and truncated files.',
     'distinct (operation, file name class, dataset kind, size class, files held, faulty) tuples',
     ['dataset classes', 'serialization helpers', 'pickle'],
     ['disk (numbered steps on a scratch directory)', 'file-like streams', 'process death'],
     'deterministic simulation with crash and disk-fault injection, old-or-new oracle',
     'Seeded search over histories and crash/fault points; a killed process, not a power cut, is modelled.',
     assumptions=['A killed process loses user-space buffers but no completed system call (the kernel survives).'])

prop('P03', 'Results added to a dictionary file are never lost once acknowledged',
     'Every entry whose addition to a dictionary file was acknowledged is read back from it in the order of the additions, '
     'until the file is deliberately overwritten. An addition or overwrite that fails or is cut off by a crash leaves the file '
     'with either all its previous entries or all of them plus the new one, the failure is reported to the caller, and a file '
     'that cannot be read is never silently replaced.',
     ['crash_points', 'fault_sequences', 'histories'],
     'All histories of additions, overwrites and reads of several dictionary files with read and write errors, torn writes '
     'and process kills at any file-system step.',
     'No test touches these helpers at all.',
     ['pybrain/tools/filehandling.py'],
     [('read-modify-write of a pickle with atomic replacement', 'pybrain/tools/filehandling.py')],
     ['addToDictFile', 'pickleReadDict/pickleDumpDict', 'getAllFilesIn/selectSome'],
     8000, 300000,
     'A run draws a history of additions, overwrites, reads and listings on up to three files, with a disk error, torn '
     'write or process kill at a drawn file-system step of about half of the writes, failing reads and damaged files.',
     'distinct (operation, fault fired, entries per file) tuples',
     ['dictionary file helpers', 'pickle'], ['disk (numbered steps on a scratch directory)', 'process death'],
     'deterministic simulation with crash and disk-fault injection, reference dictionary',
     'Seeded search over histories and crash/fault points; one process at a time uses a file.',
     assumptions=['A killed process loses user-space buffers but no completed system call (the kernel survives).',
                  'No two processes write the same file at the same time.'])

prop('P05', 'An agent records exactly the interactions that were completed',
     'The history of an agent that logs is exactly the interactions that were completed since its last reset, in order: '
     'the observation it was given, the action it had executed, the reward it received, one sequence for each episode with '
     'at least one completed interaction. An interaction that fails part-way (in the environment, the task or the acting '
     'module) leaves no trace and does not keep later interactions or episodes from being carried out, recorded and '
     'learned from; calls out of order are refused, and a queued experiment always learns on its last n episodes.',
     ['histories', 'fault_sequences', 'programs'],
     'All histories of interactions, episodes, resets, learning and misuse by every kind of agent and experiment, with '
     'failures at any callback of the environment, task or module.',
     'The tests run no reinforcement-learning experiment at all; a failure inside an interaction is never produced.',
     ['pybrain/rl/agents/logging.py', 'pybrain/rl/agents/learning.py', 'pybrain/rl/agents/linearfa.py',
      'pybrain/rl/experiments/experiment.py', 'pybrain/rl/experiments/episodic.py', 'pybrain/rl/experiments/queued.py',
      'pybrain/rl/experiments/continuous.py', 'pybrain/datasets/reinforcement.py'],
     [('three-step protocol observation/action/reward', 'pybrain/rl/agents/logging.py'),
      ('queue of episodes', 'pybrain/rl/experiments/queued.py')],
     ['agent.history', 'doInteractions/doEpisodes/run return values'],
     6000, 200000,
     'A run draws an agent (user-defined, network, table with Q/SARSA/Q(lambda) and three explorers, NFQ, policy gradient, '
     'linear function approximation), an experiment and a history of up to 30 operations; a third of them are armed with a '
     'failure at a drawn callback.',
     'distinct (agent, experiment, operation, failure, history size class) tuples',
     ['agents, learners, explorers, experiments, tasks, reinforcement dataset'],
     ['environment and task (record what happened, fail on schedule)', 'random generators (seeded)'],
     'deterministic simulation with faults injected at callbacks, refinement of a recorded interaction log',
     'Seeded search over histories and failure points; a failure is an exception at a callback, not at an arbitrary line.')

prop('P06', 'Episodic evaluations are independent of history and add up the rewards given',
     'Evaluating an agent or module on an episodic task plays exactly the configured number of episodes from reset to end, '
     'and returns the average over them of the (discounted) sum of exactly the rewards the agent is given; what the agent '
     'is shown and what is executed are scaled and clipped to the configured limits. The result depends on nothing that '
     'happened on the task before, earlier or aborted episodes included: a used task and a new one give the same result '
     'under the same random draws.',
     ['histories', 'fault_sequences', 'programs'],
     'All histories of complete, partial and failed evaluations on user-defined tasks and the tasks of the library '
     '(mazes, POMDPs, control tasks, ship steering), for all policies.',
     'No test evaluates anything on an episodic task; an evaluation that fails part-way is never produced.',
     ['pybrain/rl/environments/episodic.py', 'pybrain/rl/environments/task.py', 'pybrain/rl/environments/mazes/maze.py',
      'pybrain/rl/environments/mazes/tasks/pomdp.py', 'pybrain/rl/environments/simple/tasks.py',
      'pybrain/rl/environments/classic/mountaincar.py', 'pybrain/rl/environments/shipsteer/northwardtask.py'],
     [('reward accumulation and reset', 'pybrain/rl/environments/episodic.py'),
      ('scaling of sensors and actions', 'pybrain/rl/environments/task.py')],
     ['EpisodicTask.f / getTotalReward / samples', 'getObservation / performAction / getReward'],
     8000, 300000,
     'A run draws a task (user-defined with drawn dimensions, discount, batch size and limits, or one of 16 tasks of the '
     'library), a policy and a history of up to 15 evaluations, about half of them with a failure at a drawn callback.',
     'distinct (task, operation, failure, configuration) tuples',
     ['episodic tasks, environments, experiments, networks'], ['agents and user environments (fail on schedule)', 'random generators (seeded)'],
     'deterministic simulation with faults injected at callbacks, reference accounting and used-versus-new comparison',
     'Seeded search over histories and failure points; a failure is an exception at a callback, not at an arbitrary line.')

prop('P07', 'Learners learn from exactly the recorded experience',
     'Learning moves the parameters of an agent exactly as the update rule of its learner prescribes for the recorded '
     'episodes: value tables follow the Q, SARSA or Q(lambda) rule over consecutive interactions of an episode, never '
     'across episodes, linear value functions follow one update per pair of consecutive interactions, and policy gradients '
     'are those of the recorded actions. Interactions that failed, were forgotten by the queue or happened before a reset '
     'have no influence, learning leaves the history as it is, and an agent told not to learn does not change.',
     ['histories', 'fault_sequences', 'inputs'],
     'All histories of interactions, failures, resets and learning steps, for all environments, rewards and parameters of '
     'the value-based and policy-gradient learners.',
     'The tests of the linear learners feed long random sequences and check rough averages; no other learner is tested, and '
     'none after a failed interaction.',
     ['pybrain/rl/learners/valuebased/q.py', 'pybrain/rl/learners/valuebased/sarsa.py', 'pybrain/rl/learners/valuebased/qlambda.py',
      'pybrain/rl/learners/valuebased/linearfa.py', 'pybrain/rl/learners/valuebased/interface.py',
      'pybrain/rl/learners/directsearch/policygradient.py', 'pybrain/rl/learners/directsearch/reinforce.py',
      'pybrain/rl/learners/directsearch/enac.py', 'pybrain/rl/agents/learning.py'],
     [('batch updates over the sequences of the history', 'pybrain/rl/learners/valuebased/q.py'),
      ('log-likelihood gradients recorded along with the history', 'pybrain/rl/learners/directsearch/policygradient.py')],
     ['agent.learn', 'ActionValueTable.getActionValues', 'network parameters'],
     6000, 250000,
     'A run draws an environment, a learner (Q, SARSA, Q(lambda), three linear, REINFORCE, ENAC), an explorer and a history '
     'of up to 40 interactions, learning steps, resets and queue runs, a third armed with a failure at a drawn callback.',
     'distinct (learner, operation, failure, history size class) tuples',
     ['agents, learners, explorers, experiments, value tables, networks, gradient descent'],
     ['environment and task (record what happened, fail on schedule)', 'random generators (seeded)'],
     'deterministic simulation with faults injected at callbacks, refinement of reference update rules',
     'Seeded search over histories and failure points; numerical agreement to 1e-5 relative or better.')


prop('P08', 'Board games are played, won and scored by their rules',
     'In any sequence of moves, legal or not, of capture game, Gomoku and Pente, the board, captures, groups and liberties, legal and '
     'winning moves, move count, winner and draws are those of the rules of the game, and a refused move changes nothing. The '
     'players only make legal moves for their own colour, take a win and avoid suicide where they promise to, and see the board '
     'from their own side. The tasks score exactly the games they played, with the starting player as configured, whatever was played or '
     'aborted before.',
     ['histories', 'fault_sequences', 'inputs'],
     'All histories of moves, refused moves, resignations, resets, handicaps, complete and aborted games and evaluations, for '
     'all board sizes, players and task options.',
     'The tests play no game at all (the only script that does is an example).',
     ['pybrain/rl/environments/twoplayergames/capturegame.py', 'pybrain/rl/environments/twoplayergames/gomoku.py',
      'pybrain/rl/environments/twoplayergames/pente.py', 'pybrain/rl/environments/twoplayergames/twoplayergame.py',
      'pybrain/rl/environments/twoplayergames/capturegameplayers/moduledecision.py',
      'pybrain/rl/environments/twoplayergames/gomokuplayers/moduledecision.py',
      'pybrain/rl/environments/twoplayergames/tasks/capturetask.py', 'pybrain/rl/environments/twoplayergames/tasks/gomokutask.py',
      'pybrain/rl/environments/twoplayergames/tasks/handicaptask.py'],
     [('incremental groups and liberties', 'pybrain/rl/environments/twoplayergames/capturegame.py'),
      ('five in a row and captured pairs', 'pybrain/rl/environments/twoplayergames/pente.py')],
     ['doMove/performAction', 'getLegals/getKilling/getAcceptable', 'player.getAction', 'task.f'],
     12000, 500000,
     'A run draws a game and either a history of up to 120 moves, resets, handicaps and random boards, or up to 8 games between '
     'players, or up to 8 evaluations of a task; players fail at a drawn move in 40% of the games and offer illegal moves in a third '
     'of the runs.',
     'distinct (game, operation, winner, move count class, players) tuples',
     ['games, players, tasks, episodic experiments, networks of the module players'],
     ['players that fail or offer illegal moves on schedule', 'random generators (seeded)'],
     'deterministic simulation of game histories with failing players, refinement of reference rules (flood fill)',
     'Seeded search over games; boards up to 7x7.')


prop('P09', 'A tournament accounts for exactly the games that were completed',
     'A round of a tournament plays one game for every ordered pair of agents, alternating moves from the starting color, and '
     'executes only legal moves where that is demanded. The results list for every pair the winner (or the draw) of each game that was '
     'completed since the last reset, in order, and no other: a game cut off by a failing player is not counted. Game count, report and '
     'Elo scores are those of the results, and Elo points are conserved.',
     ['histories', 'fault_sequences'],
     'All histories of rounds, aborted rounds, resets, reports and ratings, for all games (user-defined with drawn outcomes, capture '
     'game, Gomoku, Pente) and pools of agents.',
     'No test runs a tournament.',
     ['pybrain/rl/experiments/tournament.py', 'pybrain/rl/environments/twoplayergames/twoplayergame.py'],
     [('results per ordered pair', 'pybrain/rl/experiments/tournament.py'), ('Elo update', 'pybrain/rl/experiments/tournament.py')],
     ['Tournament.results/numGames/organize', 'Tournament.eloScore', 'str(tournament)'],
     15000, 600000,
     'A run draws a game, two to four agents and up to 12 operations (rounds, ratings, reports, resets); players fail at a drawn move of '
     '40% of the rounds and offer illegal moves in 30%.',
     'distinct (game, pool, operation, aborted, legality forced, game count class) tuples',
     ['tournament, games, players'], ['players that fail or offer illegal moves on schedule', 'a game with drawn outcomes', 'random generators (seeded)'],
     'deterministic simulation of tournaments with failing players, reference accounting',
     'Seeded search over histories and failure points.')


prop('P11', 'An optimizer accounts for every evaluation and returns the best one',
     'Over any history of learning, resuming, changed budgets, targets and directions and failing evaluations, every black-box optimizer '
     'counts exactly the completed evaluations and steps, stores what it was told to store, and returns the best evaluable of all '
     'those evaluated, with its fitness. It does as many learning steps as asked unless the evaluation budget, the desired '
     'fitness, convergence or a numerical failure ends it, never exceeds the budget and never goes on when the target is reached. '
     'Errors of the evaluator are not hidden, and leave the optimizer, other optimizers and the initial point as they were.',
     ['histories', 'fault_sequences', 'inputs'],
     'All 24 optimizers, options, evaluators, directions, kinds of evaluables, and histories of steps and failures.',
     'The tests never run an optimizer on anything but a short undisturbed sequence.',
     ['pybrain/optimization/optimizer.py', 'pybrain/optimization/hillclimber.py', 'pybrain/optimization/populationbased/es.py',
      'pybrain/optimization/populationbased/ga.py', 'pybrain/optimization/memetic/memetic.py', 'pybrain/optimization/neldermead.py',
      'pybrain/optimization/distributionbased/ves.py', 'pybrain/structure/evolvables/maskedparameters.py'],
     [('bookkeeping of evaluations', 'pybrain/optimization/optimizer.py'), ('exchange of mutation operators', 'pybrain/optimization/memetic/memetic.py')],
     ['optimizer.learn', 'numEvaluations, numLearningSteps, _allEvaluations', 'initial evaluable'],
     30000, 700000,
     'A run draws one or two optimizers with options, evaluator, direction and initial point, and up to 14 operations; a quarter of the '
     'learning operations meet an exception, a ValueError, NaN or infinity at a drawn evaluation.',
     'distinct (optimizer, kind of evaluable, form of evaluator, failure, steps class, direction) tuples',
     ['optimizers, evolvables, networks, function environments'], ['objective function (recording, failing on schedule, noisy)', 'random generators (seeded)'],
     'deterministic simulation of optimization histories with failing evaluations, reference bookkeeping',
     'Seeded search over histories and failure points.')


prop('P12', 'The front of a multi-objective optimization is the non-dominated set',
     'For every set of points, fronts, non-dominated sorting, crowding distance and NSGA-II selection are those of their definitions. Over '
     'any history of generations and failing evaluations, the result of a (constrained) multi-objective genetic algorithm is the set of '
     'non-dominated, feasible if possible, individuals of the current generation (of all generations without elitism), with their fitnesses. '
     'Individuals stay in bounds, and are evaluated once as long as they live.',
     ['histories', 'fault_sequences', 'inputs'],
     'All sets of points with ties, duplicates and any size; all histories of generations, options, benchmark functions and failures.',
     'The doctests do not reach the multi-objective algorithms.',
     ['pybrain/tools/nondominated.py', 'pybrain/optimization/populationbased/multiobjective/nsga2.py',
      'pybrain/optimization/populationbased/multiobjective/constnsga2.py', 'pybrain/optimization/populationbased/ga.py',
      'pybrain/rl/environments/functions/transformations.py'],
     [('divide and conquer over fronts', 'pybrain/tools/nondominated.py'),
      ('cache of fitnesses', 'pybrain/optimization/populationbased/multiobjective/nsga2.py')],
     ['MultiObjectiveGA.learn', 'bestEvaluable, bestEvaluation', 'non_dominated_front, nsga2select'],
     4000, 150000,
     'A run draws a set of up to 260 points, or a benchmark, options and up to 7 operations of up to 3 generations, of which 30% meet a '
     'failing evaluation.',
     'distinct (function, options, front size class) and (set size, dimension, grid, shape) tuples',
     ['optimizers, benchmarks, non-dominated sorting'], ['recording, failing evaluator', 'random generators (seeded)'],
     'deterministic simulation of optimization histories with failing evaluations, brute-force reference front',
     'Seeded search over histories and point sets.')


prop('P13', 'Networks compute their definition over any history of activations',
     'Over any history of activations, resets, changed parameters, copies, pickles, extensions, failed or interrupted activations, every '
     'network (feed-forward, recurrent with or without forgetting, nested, with shared, sliced and LSTM parts) outputs what its modules and '
     'connections define for the inputs since the last reset, for sequences of any length. Propagating errors back yields the exact '
     'derivatives of all parameters and inputs through time. After a failed activation, a reset restores the behavior of a fresh network.',
     ['histories', 'fault_sequences', 'inputs'],
     'All network structures that can be built from the layers and connections, all sequences, and failures at any line of an activation.',
     'The tests activate a few fixed small networks a few times, never after a failure.',
     ['pybrain/structure/networks/network.py', 'pybrain/structure/networks/recurrent.py', 'pybrain/structure/networks/feedforward.py',
      'pybrain/structure/modules/module.py', 'pybrain/structure/modules/lstm.py', 'pybrain/structure/modules/mdlstm.py',
      'pybrain/structure/connections/shared.py', 'pybrain/tools/shortcuts.py'],
     [('buffers over time: reset, growth, shift', 'pybrain/structure/modules/module.py'),
      ('offsets of recurrent networks', 'pybrain/structure/networks/recurrent.py')],
     ['activate, backActivate, activateOnDataset', 'params, derivs'],
     6000, 250000,
     'A run draws a network and up to 24 operations; a quarter of the operations meet a failing module, or an interrupt or memory error at a drawn '
     'source line.',
     'distinct (operation, kind of network, steps since reset) tuples',
     ['networks, modules, connections, buffers, pickling'], ['one kind of layer of the network fails on schedule'],
     'deterministic simulation of activation histories with injected failures, independent reference interpreter with numerical gradients',
     'Seeded search over structures, histories and failure points.')


prop('P14', 'Parameters of a network and its parts are one; those of copies are not',
     'Over any history of writes, mutations, copies, pickles, re-sorting and interruptions, the parameter and derivative vectors of a network and '
     'the parameters of its modules, connections, shared connections and nested networks are the same values, whichever was written; a write '
     'of the wrong size or to a part that is owned is refused and changes nothing. Copies, pickles and cheap or masked copies start with '
     'the same values and are independent of each other from then on. Decomposing parameters by neuron yields each exactly once.',
     ['histories', 'fault_sequences', 'inputs'],
     'All networks, all histories of writes and copies on several instances, interruptions at any line.',
     'The tests check sharing for a few networks directly after construction.',
     ['pybrain/structure/networks/network.py', 'pybrain/structure/parametercontainer.py', 'pybrain/structure/connections/shared.py',
      'pybrain/structure/evolvables/cheaplycopiable.py', 'pybrain/structure/evolvables/maskedparameters.py',
      'pybrain/structure/networks/neurondecomposable.py'],
     [('slices of one parameter array', 'pybrain/structure/networks/network.py'), ('ownership', 'pybrain/structure/parametercontainer.py')],
     ['params, derivs, _setParameters', 'copy, pickle', 'getDecomposition'],
     8000, 300000,
     'A run draws a network or a population of containers sharing one, and up to 26 operations, a tenth of which are interrupted at a drawn line.',
     'distinct (operation, kind, number of instances) tuples',
     ['networks, parameter containers, evolvables, pickling'], ['random generators (seeded)'],
     'deterministic simulation of histories of writes and copies with interruptions, reference vector model and interpreter',
     'Seeded search over structures, histories and interruption points.')


prop('P15', 'Training moves the parameters as prescribed, and keeps the best ones',
     'Over any history of epochs, dataset changes, external parameter changes and failures, backpropagation and RProp present every sequence '
     'of the current dataset once per epoch and change the parameters by the rule of the method (learning rate, decay, momentum, weight decay, '
     'step sizes), reporting the importance-weighted mean error. trainUntilConvergence ends with the parameters of least validation error '
     'within maxEpochs. Failed or interrupted training leaves the datasets, and the dataset of the trainer, as they were.',
     ['histories', 'fault_sequences', 'inputs'],
     'All networks, datasets, trainer options, histories and failures at any activation or line.',
     'The tests compare gradients of single epochs, and never fail in the middle.',
     ['pybrain/supervised/trainers/backprop.py', 'pybrain/supervised/trainers/rprop.py', 'pybrain/supervised/trainers/trainer.py',
      'pybrain/supervised/trainers/mixturedensity.py', 'pybrain/auxiliary/gradientdescent.py', 'pybrain/datasets/importance.py'],
     [('state of the descent (momentum, step sizes)', 'pybrain/auxiliary/gradientdescent.py'),
      ('early stopping', 'pybrain/supervised/trainers/backprop.py')],
     ['train, trainEpochs, trainOnDataset, trainUntilConvergence', 'testOnData, testOnClassData', 'module.params'],
     6000, 250000,
     'A run draws a network, datasets, trainer and options, and up to 14 operations; a third of which meet a failing module or an interrupt.',
     'distinct (trainer, operation, failure, mode, kind of network) tuples',
     ['trainers, gradient descent, networks, datasets'], ['one kind of layer of the network fails on schedule', 'random generators (seeded)'],
     'deterministic simulation of training histories with injected failures, reference update rules on a separate network',
     'Seeded search over histories and failure points.')

prop('P16', 'UDP clients receive exactly what the server sent, and recover',
     'Whatever the network does, everything that UDPClient.listen() returns is None or equals, with types, shapes and exact values, a list '
     'that UDPServer.send() was given, and data is sent once to every client that announced itself, independently of clients that fail. '
     'No datagram, error or concurrent use makes listen() or send() raise, or listen() take longer than its timeout. '
     'Once the network is sound, every listening client receives data again.',
     ['schedules', 'fault_sequences', 'inputs'],
     'All histories of datagrams (lost, duplicated, delayed, truncated, foreign), crashes and restarts of clients, and interleavings of server threads.',
     'The tests do not use the network at all.',
     ['pybrain/tools/networking/udpconnection.py'],
     [('representation of lists and arrays on the wire', 'pybrain/tools/networking/udpconnection.py'),
      ('list of clients, signs of life', 'pybrain/tools/networking/udpconnection.py')],
     ['UDPServer.listen, send, clients', 'UDPClient.listen'],
     1500, 100000,
     'A run draws a server with one or two threads, up to three clients, and a nemesis with up to a dozen faults, then heals the network and waits for progress.',
     'distinct (fault, number of known clients, threads, clients alive) tuples',
     ['udpconnection (server and clients)'], ['sockets, network, threads, clock (simulated)'],
     'deterministic simulation of network, threads and clock with fault injection',
     'Seeded search over schedules and fault sequences.')

prop('P17', 'Rendering never influences an environment, and viewers show its states',
     'A rendered ship or flexcube environment goes through exactly the states of an unrendered one, and none of its methods raises or blocks '
     'longer than its pace, whatever network, viewers and threads do. Viewers survive lost and garbled datagrams, and draw only complete states '
     'that the environment was in (or its reset), from one update at a time. Once the network is sound, every viewer sees the environment again.',
     ['schedules', 'fault_sequences', 'histories'],
     'All interleavings of environment, update threads and viewers; all histories of network faults, crashes and restarts of viewers.',
     'The tests never render.',
     ['pybrain/rl/environments/shipsteer/shipsteer.py', 'pybrain/rl/environments/shipsteer/viewer.py', 'pybrain/rl/environments/flexcube/environment.py',
      'pybrain/rl/environments/flexcube/viewer.py', 'pybrain/tools/networking/udpconnection.py', 'pybrain/utilities.py'],
     [('updateRenderer thread with its lock', 'pybrain/rl/environments/shipsteer/shipsteer.py'),
      ('drawIdleScene', 'pybrain/rl/environments/flexcube/viewer.py')],
     ['performAction, reset, getSensors of rendered environments', 'state drawn by the viewers'],
     1200, 80000,
     'A run draws an environment, a plan of actions, up to two viewers and a nemesis, compares with the unrendered environment, heals, and waits for progress.',
     'distinct (environment, fault, clients, viewers alive, update in progress, plan done) tuples',
     ['environments, update threads, UDP server and clients, viewers'], ['OpenGL (draws nothing)', 'sockets, network, threads, clock (simulated)'],
     'deterministic simulation of network, threads and clock with fault injection; the unrendered environment as reference',
     'Seeded search over schedules and fault sequences.')

prop('P18', 'TCP clients follow their protocol on any stream, and notice the end',
     'However the stream is cut into pieces, delayed, merged or sent short, SimpleraceEnvironment consumes one message of the server per step, '
     'observes exactly the data it contains, and answers with the command for its action once the server is ready; ClientCapturePlayer shows '
     'the server the true position and plays exactly its answers, refusing illegal ones. When the connection ends they raise instead of '
     'hanging or spinning.',
     ['schedules', 'fault_sequences', 'histories'],
     'All segmentations and delays of both directions, server scripts, and points where the server dies.',
     'The tests never connect to a server.',
     ['pybrain/rl/environments/simplerace/simpleracetcp.py', 'pybrain/rl/environments/simplerace/simpleracetask.py', 'pybrain/rl/environments/simplerace/simplecontroller.py',
      'pybrain/rl/environments/twoplayergames/capturegameplayers/clientwrapper.py'],
     [('performAction', 'pybrain/rl/environments/simplerace/simpleracetcp.py'),
      ('getAction', 'pybrain/rl/environments/twoplayergames/capturegameplayers/clientwrapper.py')],
     ['observations, steps and commands', 'positions and moves'],
     15000, 1000000,
     'A run draws a server script and a client, and plays it over a simulated stream with fragmentation, short sends and receives, delays, and the death of the server.',
     'distinct (client, kind of message, ready, waiting) or (board, color, length of the game) tuples',
     ['clients, task, controller, capture game, random player'], ['servers (a script)', 'sockets, stream, clock (simulated)'],
     'deterministic simulation of a stream connection with fault injection against a protocol model',
     'Seeded search over segmentations, scripts and failures.')

prop('P19', 'Renderers draw states that were, never disturb; threads report once',
     'What the renderers of the simple and the cart pole environments draw is always one complete state they were given (a path since its reset), never a '
     'mixture and never older than the drawing before; once updates stop the last one is drawn, and a stopped renderer ends. Rendering, slow '
     'or failing drawings included, neither changes what the environment does nor holds it up for longer than a drawing. '
     'A threaded function runs once per call, without being waited for, and its result reaches the callback exactly once.',
     ['schedules', 'fault_sequences', 'histories'],
     'All interleavings of environment, renderer, starts and stops, all durations and failures of drawings; all calls of threaded functions.',
     'The tests neither render nor start threads.',
     ['pybrain/rl/environments/renderer.py', 'pybrain/rl/environments/graphical.py', 'pybrain/rl/environments/simple/renderer.py',
      'pybrain/rl/environments/cartpole/renderer.py', 'pybrain/rl/environments/cartpole/cartpole.py', 'pybrain/utilities.py'],
     [('updateData and _render under a lock', 'pybrain/rl/environments/cartpole/renderer.py'),
      ('threaded', 'pybrain/utilities.py')],
     ['state drawn by the renderers', 'updateData, stop, performAction', 'callbacks of threaded functions'],
     6000, 400000,
     'A run draws a renderer, a plan of updates, starts, stops, slow and failing drawings, and interleaves the threads line by line.',
     'distinct (starts, stop, failure, duration, drawings, updates) tuples',
     ['renderers, cart pole environments, threaded'], ['pylab and matplotlib (record what is drawn; integrator reimplemented)', 'threads, locks, clock (simulated)'],
     'deterministic simulation of threads and clock with fault injection; drawings compared with the history of updates',
     'Seeded search over schedules and failures; preemption at lines of the library.')

prop('P20', 'Environments follow their documented rules over any history',
     'Over any history of actions, queries, resets and interrupted calls, the control environments (cart poles, ship, mountain car, acrobot, simple) move by their '
     'equations and the mazes and decision tasks by their rules: every accepted action takes effect once, queries change nothing, and sensors, observation, reward '
     'and end all describe the current state. A reset makes a legal start, whatever happened before. Noise strikes as often as documented and only in the documented way.',
     ['histories', 'fault_sequences', 'inputs'],
     'All histories of actions, queries and resets, all outcomes of the random generators, interrupts at arbitrary lines of an action.',
     'Tests run a few steps of two mazes; random outcomes that matter are rare.',
     ['pybrain/rl/environments/cartpole/cartpole.py', 'pybrain/rl/environments/cartpole/doublepole.py', 'pybrain/rl/environments/cartpole/nonmarkovpole.py',
      'pybrain/rl/environments/cartpole/nonmarkovdoublepole.py', 'pybrain/rl/environments/cartpole/balancetask.py',
      'pybrain/rl/environments/shipsteer/shipsteer.py', 'pybrain/rl/environments/shipsteer/northwardtask.py',
      'pybrain/rl/environments/classic/mountaincar.py', 'pybrain/rl/environments/classic/acrobot.py', 'pybrain/rl/environments/simple/environment.py',
      'pybrain/rl/environments/mazes/maze.py', 'pybrain/rl/environments/mazes/polarmaze.py', 'pybrain/rl/environments/mazes/tasks/shuttle.py',
      'pybrain/rl/environments/mazes/tasks/tiger.py', 'pybrain/rl/environments/mazes/tasks/tmaze.py', 'pybrain/rl/environments/mazes/tasks/maze4x3.py',
      'pybrain/rl/environments/mazes/tasks/cheesemaze.py', 'pybrain/rl/environments/mazes/tasks/maze89state.py', 'pybrain/rl/environments/mazes/tasks/mdp.py'],
     [('equations of motion', 'pybrain/rl/environments/cartpole/cartpole.py'), ('moves and walls', 'pybrain/rl/environments/mazes/maze.py'),
      ('rewards and ends', 'pybrain/rl/environments/cartpole/balancetask.py')],
     ['performAction, getSensors', 'getObservation, getReward, isFinished', 'reset'],
     10000, 800000,
     'A run draws an environment or task, a history of actions and queries with scripted or seeded random generators, and interrupts; every answer is compared with an independent model.',
     'distinct (environment, coarse state, action, kind of noise) tuples',
     ['environments and tasks'], ['random generators (scripted or seeded)', 'matplotlib integrator (reimplemented)'],
     'deterministic simulation with scripted randomness and injected interrupts against executable reference models',
     'Seeded search over histories; rates of noise are compared within six standard deviations.')

prop('P21', 'A seeded program gives the same results whatever else the process does',
     'A program that seeds the random generators and then builds networks, trains, optimizes, learns, plays games, splits data or steps environments gives '
     'bit-identical results, and draws the same random numbers, each time it is executed, whatever other parts of the library ran in the process before, were '
     'aborted, or run in alternation with it (with random states of their own), and whatever automatic names its objects got. No object shares state with others '
     'that were created independently of it.',
     ['histories', 'schedules', 'programs', 'fault_sequences'],
     'All seeded programs over the public classes, all histories of other programs before them (aborted at any line), all alternations with other programs.',
     'Tests run each program once in a process; shared state and orders that depend on names or history show only in combinations.',
     ['pybrain/structure/networks/network.py', 'pybrain/structure/networks/recurrent.py', 'pybrain/utilities.py', 'pybrain/optimization/optimizer.py',
      'pybrain/optimization/distributionbased/fem.py', 'pybrain/optimization/memetic/memetic.py', 'pybrain/supervised/trainers/backprop.py',
      'pybrain/rl/learners/learner.py', 'pybrain/rl/environments/mazes/maze.py', 'pybrain/datasets/supervised.py'],
     [('ordering of modules and connections', 'pybrain/structure/networks/network.py'),
      ('automatic names', 'pybrain/utilities.py'), ('defaults of a class', 'pybrain/optimization/optimizer.py')],
     ['results of seeded programs', 'state of random and numpy.random after each step'],
     6000, 300000,
     'A run draws a program and a seed and executes it twice: undisturbed, and after or in alternation with other drawn programs, some of them killed at a drawn '
     'source line, with the counter of automatic names moved; every run happens in a forked process of its own.',
     'distinct (program, length, outcome) tuples',
     ['the classes used by the programs, nearly all of the library'], ['random generators (state swapped between the programs)', 'scheduler of the programs'],
     'deterministic simulation of alternating seeded programs with injected aborts; repeatability of the recorded results',
     'Seeded search over programs, histories and alternations; single-threaded.', quick_secs=300)

prop('P22', 'Validation tests each sample once on unseen data; searches return the best',
     'Cross validation splits the samples into disjoint folds of equal size up to one, tests each sample exactly once on a fresh clone trained, for the asked '
     'number of epochs, on exactly the other folds, and returns the mean performance; the given trainer, module and dataset stay as they were, also when '
     'training or validation fails. Grid searches validate each point of their grid exactly once, keep every performance computed, stay within their bounds and '
     'return a point of the best performance. Errors and hit rates of modules on plain, sequential and weighted data are those of their definition, whatever '
     'state the module was in. The training tools stop when their criterion says so, keep the best weights, and report and save the curve of errors as it was.',
     ['histories', 'programs', 'fault_sequences'],
     'All datasets, numbers of folds, epochs, grids, landscapes of performances (ties, integers, ratios) and failures of the callbacks.',
     'The tests validate one example of a network on one dataset; folds are random, performances and failures arbitrary.',
     ['pybrain/tools/validation.py', 'pybrain/tools/gridsearch.py', 'pybrain/tools/neuralnets.py', 'pybrain/supervised/trainers/trainer.py'],
     [('CrossValidator.validate', 'pybrain/tools/validation.py'), ('ModuleValidator', 'pybrain/tools/validation.py'),
      ('GridSearch2D.search, GridSearchDOE.search', 'pybrain/tools/gridsearch.py'), ('runTraining', 'pybrain/tools/neuralnets.py')],
     ['training and test sets of each fold', 'validated points and performances', 'weights, curves and reports'],
     16000, 800000,
     'A run draws a kind of validation or search, data, settings and a landscape of performances, and a failing callback or an interrupt at a drawn source line; '
     'trainers and modules of the simulator record what they are asked to do.',
     'distinct (kind, sizes, settings, outcome) tuples',
     ['CrossValidator', 'Validator', 'ModuleValidator', 'SequenceHelper', 'testOnSequenceData', 'GridSearch2D', 'GridSearchDOE', 'GridSearchCostGamma',
      'GridSearchDOECostGamma', 'NNregression', 'NNclassifier', 'datasets', 'networks'],
     ['trainers and units (recording)', 'pylab', 'file system (shim over a scratch directory)', 'random numbers (seeded)'],
     'deterministic simulation with injected failures of callbacks and interrupts; recorded history checked against the definition of validation',
     'Seeded search; the support vector machine itself (LIBSVM is not installed) is represented by a unit of the simulator.')

prop('P23', 'Data in foreign formats is read and prepared whole, or failure is reported',
     'LIBSVM, raw column and MNIST files are read completely: every sample with its values and label, and nothing of files read before; damaged entries, missing '
     'labels, truncated images and failing reads are reported, and leave the data loaded before unchanged. Normalization maps whole datasets and single patterns '
     'by the same formula, and saved parameters, weights and results are loaded back equal; a failing save is reported. Cutting sequences into windows keeps '
     'every complete window with its last target.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'All contents of files, all damages, all points of failure of reading or writing, all histories of loads, saves and conversions.',
     'No test reads these formats; the failures need a damaged file or a failing disk.',
     ['pybrain/tools/svmdata.py', 'pybrain/tools/datasets/mnist.py', 'pybrain/tools/datasettools.py', 'pybrain/tools/example_tools.py'],
     [('SVMData', 'pybrain/tools/svmdata.py'), ('images, labels, makeMnistDataSets', 'pybrain/tools/datasets/mnist.py'),
      ('DataSetNormalizer, convertSequenceToTimeWindows', 'pybrain/tools/datasettools.py'), ('ExTools', 'pybrain/tools/example_tools.py')],
     ['content of the datasets', 'reported errors', 'content of saved files'],
     50000, 2000000,
     'A run draws a format, contents, damages of the file, a history of loads, saves and uses, and the step at which the disk fails or the process dies.',
     'distinct (kind, operation, outcome, damage) tuples',
     ['SVMData', 'mnist', 'DataSetNormalizer', 'convertSequenceToTimeWindows', 'ExTools', 'pickle', 'datasets'],
     ['file system (shim over a scratch directory)', 'pylab', 'learner given to ExTools'],
     'deterministic simulation of a failing disk and of damaged files; round trips and contents against a reference',
     'Seeded search; reading Matlab files needs a program that is not installed.')

prop('P24', 'Evolino keeps its subpopulations whole and the best chromosomes and network',
     'Populations rank, count and remove their individuals by the fitness last given to them. Every epoch of Evolino builds each chromosome of each subpopulation '
     'into exactly the asked number of networks, evaluates each of them on the training part of all sequences after washing out with the rest, gives a chromosome '
     'the best fitness of its networks, keeps the best chromosomes up to the asked number of parents unchanged, and fills up with mutated copies of the fittest of '
     'them, so that subpopulations keep their size; burst mutation, run exactly after the asked number of epochs without gain, keeps the best of each. The network '
     'is left with the genome and least-squares output weights of the best evaluation, whatever the values of the fitness function (ties, infinite, NaN), and also '
     'in epochs after failed ones. Networks read back the genomes set in them, and extrapolate independently of their history and of how calls are split.',
     ['histories', 'programs', 'fault_sequences'],
     'All sizes, numbers of parents and combinations, fitness functions, sequences, histories of epochs, failures and bursts.',
     'The only tests run Evolino once on one dataset; sizes, ties, failing evaluations and long histories are not sampled.',
     ['pybrain/supervised/trainers/evolino.py', 'pybrain/supervised/evolino/filter.py', 'pybrain/supervised/evolino/gfilter.py',
      'pybrain/supervised/evolino/population.py', 'pybrain/supervised/evolino/gpopulation.py', 'pybrain/supervised/evolino/individual.py',
      'pybrain/structure/modules/evolinonetwork.py'],
     [('train', 'pybrain/supervised/trainers/evolino.py'), ('evaluation, selection, reproduction', 'pybrain/supervised/evolino/filter.py'),
      ('getWorstIndividuals', 'pybrain/supervised/evolino/gpopulation.py'), ('washout, extrapolate', 'pybrain/structure/modules/evolinonetwork.py')],
     ['chromosomes and their fitness', 'genomes, outputs and weights of the network'],
     4000, 300000,
     'A run draws sizes, data, a fitness function and a mutation of the simulator that remembers where each gene came from, and a history of epochs, bursts, '
     'changes of data, uses, failing evaluations and interrupts.',
     'distinct (kind, sizes, operation, outcome) tuples',
     ['EvolinoTrainer', 'the Evolino filters and populations', 'EvolinoNetwork', 'LSTMLayer', 'RecurrentNetwork', 'SequentialDataSet'],
     ['fitness function', 'mutation variate (or seeded random numbers)'],
     'deterministic simulation with injected failures of the evaluation; recorded evaluations against the definition of the algorithm',
     'Seeded search; networks of up to four cells.')

prop('P25', 'Hashed neighbours, Gaussian processes and k-means answer from the data given',
     'MinHash and MultiDimHash return, for every query, the asked number of nearest among exactly the items stored in its bucket, sorted, each once and with the '
     'object stored with it; an item stored is found by itself, refused items and queries change nothing, and arrays of the caller are not shared. The promised '
     'share of points lies in a ball of the hash, and points sharing a ball are near. Gaussian processes predict the posterior mean and covariance of exactly the '
     'samples given since the last reset, in any history of additions, datasets (used for something else afterwards), settings and tests, and draw around them. '
     'The seeds of k-means++ are points of the data, each the best choice after those before, and clusters cost no more than their seeds.',
     ['inputs', 'histories', 'fault_sequences'],
     'All items, points, samples, settings, and histories of storing and asking; interrupts while storing.',
     'Tests store a handful of fixed items; buckets, ties, negative coordinates, resets and reused datasets are not sampled.',
     ['pybrain/supervised/knn/lsh/minhash.py', 'pybrain/supervised/knn/lsh/nearoptimal.py', 'pybrain/auxiliary/gaussprocess.py', 'pybrain/auxiliary/kmeans.py'],
     [('put, knn', 'pybrain/supervised/knn/lsh/minhash.py'), ('insert, knn', 'pybrain/supervised/knn/lsh/nearoptimal.py'),
      ('addSample, testOnArray, draw', 'pybrain/auxiliary/gaussprocess.py'), ('kinit', 'pybrain/auxiliary/kmeans.py')],
     ['answers to queries', 'content of the hashes', 'predictions and draws'],
     30000, 1500000,
     'A run draws a learner and its settings, a history of data, queries, refused data, interrupts and changes of the arrays and datasets that were given.',
     'distinct (learner, operation, size of the answer) tuples',
     ['MinHash', 'MultiDimHash', 'GaussianProcess', 'kinit', 'kmeanspp', 'datasets'],
     ['random numbers (seeded)'],
     'deterministic simulation with injected interrupts and refused data; answers against reference models of the stored data',
     'Seeded search; points of up to three dimensions, as more need too many grids.')

prop('P26', 'Boltzmann machines and deep networks learn from exactly the samples given',
     'A restricted Boltzmann machine and its inverse use one weight matrix, the inverse transposed, with parameters of their own. Each epoch of training uses every '
     'sample once, in batches of the asked size, and changes weights and biases by contrastive divergence with the configured rates, momentum, weight cost and '
     'number of iterations, whatever distribution the states are sampled from; an epoch that fails leaves the result of the iterations completed. States are sampled '
     'independently with the given probabilities. Training a deep network trains each layer on the outputs of the trained layers below, and leaves the network, its '
     'parameters and its copies with the weights of the machines, however it was constructed.',
     ['inputs', 'histories', 'programs', 'fault_sequences'],
     'All sizes, configurations, samples, samplers, histories of training and failures, and constructions of the network.',
     'No active test trains any of these.',
     ['pybrain/structure/networks/rbm.py', 'pybrain/unsupervised/trainers/rbm.py', 'pybrain/unsupervised/trainers/deepbelief.py', 'pybrain/datasets/dataset.py'],
     [('invert', 'pybrain/structure/networks/rbm.py'), ('trainOnDataset, calcUpdateByRow', 'pybrain/unsupervised/trainers/rbm.py'),
      ('train', 'pybrain/unsupervised/trainers/deepbelief.py')],
     ['weights and biases after each epoch', 'batches', 'sampled states', 'outputs of the network and its copy'],
     12000, 600000,
     'A run draws a machine or deep network, a configuration, samples, a deterministic sampler of the simulator, and a history of epochs, changes and failures of the sampler.',
     'distinct (kind, operation, settings, outcome) tuples',
     ['Rbm', 'RbmBernoulliTrainer', 'RbmGaussTrainer', 'DeepBeliefTrainer', 'FeedForwardNetwork', 'datasets'],
     ['sampler of hidden states (except where it is what is tested)', 'random numbers (seeded)'],
     'deterministic simulation with scripted sampling and injected failures against a reference of contrastive divergence',
     'Seeded search; rates of sampled states are compared within six standard deviations.')
