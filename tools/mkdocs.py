"""Writes properties.jsonl and MANIFEST.json.  Run:  python3 tools/mkdocs.py"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MGR, LOG, BE, CH = ('glompo/core/manager.py', 'glompo/core/optimizerlogger.py', 'glompo/core/_backends.py',
                    'glompo/core/checkpointing.py')
BO, FN = 'glompo/optimizers/baseoptimizer.py', 'glompo/core/function.py'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    PROPS.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over.split(), text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe),
                     hook_needed=None)))


SCHED = 'The tests run each situation under whichever interleaving the machine happens to produce. '

P('P01', 'The result is the best evaluation that was accepted',
  '''At every moment and in the value returned, the reported optimum is the lowest function value among all evaluations
  recorded so far, together with the point, the number and the type of the optimizer which really computed it; it never
  gets worse. Undefined values and positive infinity never become the optimum.''',
  'schedules inputs configurations', '''all interleavings of the manager with its optimizers within the bound; values
  including ties, zero, negative, NaN and infinities; threads, processes and forced processes; with hunting, sharing,
  crashing children and reduced logging''',
  SCHED + 'They compare one final value on one schedule.',
  [MGR, LOG], [('running minimum over accepted evaluations', f'{LOG} BaseLogger.put_iteration'),
               ('incumbent refreshed after every accepted evaluation', f'{MGR} _update_best_result')],
  [('result', 'current incumbent', f'{MGR} GloMPOManager.result')],
  ['convergence checker (every pass)', 'return value of start_manager'])
P('P02', 'Every evaluation is recorded exactly once and none is lost',
  '''Each recorded evaluation carries a unique number, the numbers are consecutive in order of acceptance, each is
  attributed to the optimizer which made it and each optimizer's evaluations appear in the order it made them, without
  gaps or repetitions, with the values it computed. When a run ends because nothing is left to run, every evaluation
  completed by an optimizer that was not killed is recorded; nothing is recorded for an optimizer after it was killed.
  The number of evaluations reported equals the number recorded.''',
  'schedules fault_sequences configurations', '''all interleavings within the bound of producers, queue and manager,
  early timeouts of every blocking call, death of a process at any point, fast functions which overflow the queue''',
  SCHED + 'No test compares the complete record with what was really evaluated.',
  [MGR, BE, BO, LOG], [('results queue with overflow cache', f'{BE} ChunkingQueue'),
                       ('draining of results', f'{MGR} _process_results'),
                       ('wrapper which forwards evaluations', f'{BO} _MessagingWrapper')],
  [('f_counter', 'number of accepted evaluations', f'{MGR}')], ['optimizer log', 'result stats'])
P('P03', 'A run always terminates and leaves nothing running',
  '''Whatever the interleaving of manager and optimizers and whichever child process dies at whatever point, a run whose
  optimizers end, or whose stopping criterion is met, returns a result: it never deadlocks, spins for ever or raises.
  When it returns, no optimizer it started is still running (unless a thread could not be interrupted within the
  configured time-out).''',
  'schedules fault_sequences configurations', '''all interleavings within the bound, expiry of any time-out at any time,
  death of any child process before any operation, pipes which report the death or do not''',
  SCHED + 'Deadlocks between the bounded queue, pipes, pause flags and joins need specific interleavings.',
  [MGR, BE, BO], [('closing of children', f'{MGR} _stop_all_children'),
                  ('purging while joining', f'{MGR} _join_child'),
                  ('handling of dead children', f'{MGR} _inspect_children')],
  [('_optimizer_packs', 'children believed to run', MGR)], ['return of start_manager', 'live children'])
P('P04', 'The limit on parallel work is never exceeded and never left idle',
  '''The worker slots of all optimizers running at any instant never sum to more than the configured maximum, a selected
  optimizer never needs more than the slots it was offered, and the slots offered for a new optimizer are those which are
  really free. While spawning is allowed and a suitable optimizer fits, free slots are filled in the next pass, also after
  optimizers end, crash or are killed.''',
  'schedules configurations fault_sequences', '''all interleavings within the bound for mixes of optimizers needing 1 to 3
  slots and limits of 1 to 3, with normal ends, crashes, process deaths and kills''',
  SCHED + 'They check the number of children at single moments.',
  [MGR], [('slot accounting', f'{MGR} _fill_optimizer_slots')], [('slots', 'workers of an optimizer', MGR)],
  ['every scheduling step', 'calls of the selector'])
P('P05', 'Hunting happens exactly when due and kills exactly the condemned',
  '''A hunt takes place after exactly every configured number of accepted evaluations once there is an incumbent, and in
  each hunt the optimizer holding the incumbent is compared once with every other living optimizer that has recorded
  evaluations: never with itself, a dead or an already killed one. An optimizer is killed if and only if the configured
  condition condemned it (or the user stopped it); it then makes at most the evaluation in progress and its record names
  the hunter and the reason.''',
  'schedules configurations', '''all interleavings within the bound; hunting frequencies 1, 2, 3, 4, 7; arbitrary verdicts
  of the conditions; gentle and aggressive killing; chunked results''',
  SCHED + 'They run one hunt with a mocked log.',
  [MGR, BO], [('hunt scheduling', f'{MGR} _process_results'), ('hunt', f'{MGR} _start_hunt'),
              ('kill', f'{MGR} _shutdown_job'), ('obeying the kill', f'{BO} check_messages')],
  [('hunt_victims', 'killed optimizers', MGR), ('hunt_counter', 'number of hunts', MGR)],
  ['hunter calls', 'metadata of optimizers', 'result stats'])
P('P06', 'Every optimizer gets exactly one true end and the counts agree',
  '''Optimizers are numbered consecutively from one and every optimizer that was started has, when the run has returned,
  exactly one recorded end with a time not before its start, which states what really happened: its own convergence
  message, a kill, an error, an unexplained normal exit, a forced termination, or the end of the run. The numbers of
  optimizers started, killed and converged in the result agree with these records; no optimizer counts as both killed
  and converged.''',
  'schedules fault_sequences configurations', '''all interleavings within the bound of the last words of an optimizer, its
  exit and the manager's inspection; deaths, crashes, silent exits, kills, interrupts and convergence at any point''',
  SCHED + 'The races between closing messages, exit and kill are never produced deliberately.',
  [MGR, LOG], [('classification of dead children', f'{MGR} _inspect_children'),
               ('signals', f'{MGR} _check_signals'), ('metadata', f'{LOG} put_metadata')],
  [('_graveyard', 'optimizers known to be dead', MGR), ('conv_counter', 'converged optimizers', MGR)],
  ['optimizer metadata', 'result stats'])
P('P07', 'A failing optimizer harms nobody else and its report is kept',
  '''When an optimizer raises, exits silently, exits with an error code or its process is killed at any point, the run
  carries on, the other optimizers' evaluations and ends are recorded as without the failure, and a replacement may be
  started. An error report sent before the failure and every message sent by an optimizer reach its record, in order.
  Only if optimizers crash again and again without a single evaluation does the run end instead, and says so.''',
  'fault_sequences schedules crash_points', '''every kind of failure, at every point of the child's life (for process
  death: before every operation), under all interleavings within the bound''',
  SCHED + 'They crash a child at one place on one schedule.',
  [MGR, BO], [('error capture', f'{BO} _minimize'), ('inspection', f'{MGR} _inspect_children'),
              ('tolerant signalling', f'{MGR} _send_signal')], (), ['optimizer messages', 'metadata', 'result'])
P('P08', 'Only unresponsive optimizers are terminated by force and only if allowed',
  '''If forced termination is configured and optimizers are processes, an optimizer that gives no sign of life for longer
  than the limit, or ignores a kill for longer than the limit, is terminated and recorded as such; one that keeps giving
  signs of life within the limit never is. At the end of the run an optimizer is terminated only after the end time-out.
  Without that setting, and for threads always, no optimizer is ever terminated
  for being silent.''',
  'schedules configurations', '''optimizers which hang at the start, hang later, are slow but alive, ignore kills or obey
  late; limits above and below their silences; all interleavings within the bound under a virtual clock''',
  'Real time makes the tests check single slow cases; limits are never approached from both sides.',
  [MGR], [('feedback time-outs', f'{MGR} _inspect_children')], [('_last_feedback', 'last sign of life', MGR)],
  ['terminated processes', 'optimizer metadata'])
P('P09', 'The run stops exactly when its criterion is met and says truly why',
  '''The stopping criterion is evaluated in every pass over the current state; the run ends in the first pass in which it
  holds and nothing is started afterwards. Otherwise it ends only when no optimizer is left and spawning has stopped. The
  reason reported is the criterion with the values that stopped the run, or that nothing is left, accordingly.''',
  'schedules configurations histories', '''all interleavings within the bound; each shipped criterion and combinations
  with and, or; runs in which criterion and exhaustion coincide''',
  SCHED + 'Criteria are tested against a mocked manager.',
  [MGR, 'glompo/convergence'], [('manager loop', f'{MGR} start_manager')],
  [('converged', 'stop flag', MGR)], ['convergence checker calls', 'result stats'])
P('P10', 'What is selected is what is started, and spawning stops for good',
  '''Each optimizer started is of the selected type with the selected settings and call arguments, the problem bounds and
  a newly generated starting point, and one is made for each selection. Once the selector refuses further spawning, no
  optimizer is ever started again and the selector is not asked again. Selections do not change the configuration.''',
  'schedules configurations', '''cyclic, staged and random selectors with spawn limits by number and by evaluations,
  per-optimizer settings including the parallel backend, all interleavings within the bound''',
  'The tests call the selectors alone and never look at what the child receives.',
  [MGR, 'glompo/opt_selectors'], [('construction', f'{MGR} _setup_new_optimizer'),
                                  ('starting', f'{MGR} _start_new_job')],
  [('spawning_opts', 'spawning allowed', MGR)], ['optimizer construction', 'minimize arguments'])
P('P11', 'A checkpoint is a consistent cut of the run',
  '''The state stored in a checkpoint is one instant of the run: every evaluation an included optimizer has made is in the
  stored log and counters, none is counted that its stored state has not made, and finished optimizers are not included
  while every unfinished one is. Log, counters and result stored agree with each other.''',
  'schedules histories', '''all interleavings within the bound of a checkpoint with optimizers which are evaluating,
  sending messages, ending, crashing, being killed, or filling the queue''',
  SCHED + 'They only check that the files exist and that a run can be loaded.',
  [MGR, BO], [('pausing and synchronising', f'{MGR} checkpoint'), ('answering', f'{BO} _prepare_checkpoint')],
  [('_pause_flag', 'holds optimizers', BO)], ['contents of the checkpoint archive'])
P('P12', 'Taking a checkpoint does not disturb the run',
  '''With checkpoints at any point a run loses, repeats or reorders no evaluation, terminates, and every optimizer goes on
  as if the checkpoint had not happened; while the state is being written no optimizer is evaluating. If saving fails the
  run continues unharmed or, if so configured, raises the error; in both cases no optimizer stays paused.''',
  'schedules fault_sequences', '''all interleavings within the bound, with checkpoints at the start, by evaluations, by
  time, at convergence and on request, and with saving made to fail at each of its steps''',
  SCHED + 'A paused or lost optimizer needs an unlucky moment.',
  [MGR, BO], [('pause flags', f'{MGR} _toggle_optimizers'), ('checkpoint', f'{MGR} checkpoint')], (),
  ['optimizer log', 'live children', 'pause flags'])
P('P13', 'A resumed run continues exactly where the checkpoint was taken',
  '''Loading a checkpoint and starting it repeats and skips nothing: each optimizer continues with its next evaluation,
  numbering of evaluations and optimizers continues, finished and killed optimizers stay so, and the final record is what
  an uninterrupted run could have produced. Counters, result, hunting and spawning state and used time are restored.''',
  'histories schedules configurations', '''runs cut at any checkpoint and resumed, also repeatedly, under all
  interleavings within the bound, with both backends and with and without a log file''',
  'The tests resume one prepared checkpoint and check a handful of attributes.',
  [MGR, BO], [('loading', f'{MGR} load_checkpoint'), ('restoring optimizers', f'{BO} checkpoint_load')], (),
  ['log of the resumed run', 'result'])
P('P14', 'A checkpoint archive is complete or absent',
  '''At whatever step the building of a checkpoint fails or the program dies, a file bearing a checkpoint name is always a
  complete, loadable checkpoint, and earlier checkpoints are removed only after the new one is in place. A failed attempt
  leaves no temporary files.''',
  'crash_points fault_sequences', '''an error at, and a crash before and after, every file-system operation performed while
  a checkpoint is built, with and without older checkpoints to prune''',
  'No test injects a failure into the file operations.',
  [MGR, CH], [('temporary construction and renaming', f'{MGR} checkpoint')], (), ['checkpoint directory'])
P('P15', 'Checkpoint names are unique and exactly the requested ones are kept',
  '''The name of a new checkpoint follows the naming format with the current time. A format with a counter continues
  after the highest existing number of this format and never reuses the name of another file. If a number of checkpoints to keep is set, exactly the newest ones of this
  format survive; no other file is ever deleted.''',
  'histories configurations inputs', '''all short sequences of checkpoints over naming formats, retention settings and
  foreign files with similar names''',
  'The tests use one or two formats on tidy directories.',
  [CH, MGR], [('name generation', f'{CH} CheckpointingControl.get_name'), ('pruning', f'{MGR} checkpoint')], (),
  ['checkpoint directory'])
P('P16', 'Optimizers obey every signal, in order, and are never left hanging',
  '''An optimizer that reads its messages answers each exactly once: it stops when told to, stores its state and waits
  when a checkpoint is prepared and resumes afterwards, takes in every shared solution, and ignores nothing. The state it
  stores, resumed in a new run, continues with everything it had learnt.''',
  'histories schedules', 'all short sequences of signals sent at all possible moments, for threads and processes',
  'The tests send single signals.',
  [BO], [('message loop', f'{BO} check_messages'), ('checkpoint dialogue', f'{BO} _prepare_checkpoint')], (),
  ['pipe of the optimizer', 'state files'])
P('P17', 'The results queue loses, duplicates and reorders nothing',
  '''Items put by several producers through any mix of the supported operations come out exactly once, each producer's
  items in the order they were put, in chunks no larger than the configured size where that applies, and never more than
  the maximum number of chunks is held. With a consumer reading, no operation blocks for ever, and a consumer which waits
  in vain is given what has been held back for grouping.''',
  'schedules programs', '''two and three producers and a consumer with all mixes of put operations, interleaved at every
  lock operation within the bound''',
  'The tests use the queue from one thread.',
  [BE], [('caching queue', f'{BE} ChunkingQueue')], [('cache', 'items waiting to be grouped', BE)], ['queue contents'])
P('P18', 'The evaluation log answers every query correctly',
  '''After any sequence of recordings, each query of the log - history, best evaluation overall and per optimizer, counts,
  largest finite value, metadata, membership - gives what a plain list of the same recordings gives. Dropping one
  optimizer's history from memory changes nothing else.''',
  'histories inputs', '''all sequences up to the depth bound of starting optimizers, recording values (including NaN and
  infinities), messages, metadata, dropping and saving and reloading''',
  'The tests use one prepared sequence.',
  [LOG], [('in-memory log', f'{LOG} BaseLogger')], (), ['log queries'])
P('P19', 'The log file holds exactly what was recorded',
  '''A log that writes to a file answers queries like one in memory, before and after histories are dropped from memory,
  and when it is closed the file contains every evaluation (with the extra columns of detailed calls), message and
  metadata once and in order.''',
  'histories inputs configurations', '''all sequences up to the depth bound of log operations, flushing, dropping, closing
  and reopening, with and without extra columns''',
  'The tests check one sequence of file operations.',
  [LOG, FN], [('file log', f'{LOG} FileLogger')], (), ['HDF5 file', 'log queries'])
P('P20', 'Resuming rolls the log file back to the checkpoint, or refuses a wrong file',
  '''When a run is resumed on a log file which has gone beyond the checkpoint, exactly the evaluations and optimizers
  recorded after the checkpoint are removed and everything recorded before is kept, so that the file ends as if the run
  had never been interrupted. A log file belonging to another run is refused untouched.''',
  'histories crash_points', '''log files ahead of the checkpoint by any number of evaluations per optimizer and any number
  of optimizers, all arrangements up to the bound, ended in order or not''',
  'One prepared log file is rolled back in the tests.',
  [MGR, LOG], [('roll back', f'{MGR} start_manager'), ('identification', f'{LOG} open')], (), ['HDF5 file'])
P('P21', 'Combined conditions follow boolean logic and report themselves truly',
  '''Any combination of conditions with and / or has the boolean value of its parts, evaluates lazily from the left, and
  after evaluation its textual report shows for each part its value in this evaluation, or that it was not evaluated -
  never a value left from an earlier one.''',
  'programs inputs', '''all expressions up to the size bound over conditions with every sequence of truth values for a
  number of successive evaluations''',
  'Few fixed expressions are tested.',
  ['glompo/common/corebase.py'], [('combination', 'glompo/common/corebase.py')], (), ['value and report'])
P('P22', 'Each hunting condition decides exactly as documented',
  '''Each hunting condition gives, for every possible history of hunter and victim, the verdict its documentation defines,
  including histories that are too short, constant, infinite or not a number.''',
  'inputs histories', '''all histories up to the length bound over a small alphabet of values and points for hunter, victim
  and bystanders, and all parameter settings from a grid''',
  'A few prepared trajectories are tested.',
  ['glompo/hunters'], [('conditions', 'glompo/hunters')], (), ['verdict'])
P('P23', 'Each stopping condition decides exactly as documented',
  '''Each stopping condition gives, for every state of the manager, the verdict its documentation defines and never gives
  an error in a state a run can be in.''',
  'inputs histories', 'all manager states over a grid of counters, results and times around every threshold',
  'Single states around one threshold are tested.',
  ['glompo/convergence'], [('conditions', 'glompo/convergence')], (), ['verdict'])
P('P24', 'Selectors choose as documented and leave the configuration alone',
  '''For every sequence of requests a selector returns the optimizer its documentation prescribes, never one that needs
  more slots than offered, stops spawning exactly at its limit, and never changes the configuration it was given; the
  settings returned are those configured.''',
  'histories configurations', '''all request sequences up to the depth bound over slots, evaluation counts and numbers of
  optimizers, for all configurations from a grid''',
  'A few requests are tested.',
  ['glompo/opt_selectors'], [('selectors', 'glompo/opt_selectors')], (), ['selection'])
P('P25', 'Starting points are always valid',
  '''In every state a run can reach - nothing evaluated, only infinite or undefined values, some optimizers without
  results, one or many optimizers - every generator returns a point of the right dimension within the bounds, and, where
  its documentation prescribes a particular point, or a distance from one, that one. An optimizer changing its starting
  point changes nothing in the generator or the manager; evaluations made by a generator are counted.''',
  'histories inputs', 'all states of the log up to the size bound, extreme random draws and progress values',
  'Generators are tested in one comfortable state.',
  ['glompo/generators'], [('generators', 'glompo/generators')], (), ['generated point'])
P('P26', 'Each improvement is shared once with every other living optimizer',
  '''If sharing is enabled, every time the incumbent improves, each other living optimizer is sent the new point and value
  exactly once and the owner is not; nothing is sent when it does not improve, and nothing before there is a finite one.
  If sharing is disabled nothing is ever sent. The same holds in a run resumed from a checkpoint.''',
  'schedules inputs', 'all interleavings within the bound; values with ties, zero and NaN; dying receivers',
  SCHED + 'Sharing is not tested with several live optimizers.',
  [MGR, BO], [('sharing', f'{MGR} _update_best_result'), ('taking in', f'{BO} inject')], (), ['injections'])
P('P27', 'User requests through files are honoured exactly once',
  '''A stop file naming a living optimizer stops exactly that optimizer, whose record names the user, and is consumed; one
  naming a dead, unknown or unreadable optimizer changes nothing. A checkpoint request makes exactly one checkpoint and is
  consumed, also if checkpoints were not configured; the archive is then placed in 'checkpoints' within the working
  directory and checkpointing stays off.''',
  'schedules inputs', 'the files appear at every point of the run, in all combinations of two, under all schedules within '
  'the bound',
  'The tests drop one file at one moment.',
  [MGR], [('stop files', f'{MGR} _is_manual_shutdowns'), ('checkpoint request', f'{MGR} _is_manual_checkpoints')], (),
  ['working directory', 'optimizer metadata'])
P('P28', 'Files of the user in the working directory are never harmed',
  '''At the start of a run only results of earlier runs are removed from the working directory, only if overwriting is
  allowed, and any other file stays as it is, however similar its name; if overwriting is not allowed and earlier results exist, the
  run refuses to start and touches nothing.''',
  'inputs configurations', '''working directories with all combinations of earlier results and foreign files with similar
  names, for every combination of settings''',
  'One directory layout is tested.',
  [MGR], [('purge', f'{MGR} _purge_old_results')], (), ['working directory'])
P('P29', 'The summary files tell the truth about the run',
  '''The summary, picture and log files asked for are written, and no others, however the run ends; their numbers, task,
  working directory, settings, optimum, times and reason of ending equal those of the run and of the returned result, and
  the picture shows every evaluation of every optimizer. Pictures asked of a log at any time show what it holds, with
  the true end of each optimizer marked. A summary asked of a loaded checkpoint tells the stored state and touches nothing else.''',
  'schedules configurations fault_sequences inputs', '''all levels of reporting, ends by convergence, exhaustion, interruption
  and error, all interleavings within the bound; all short sequences of recordings for the pictures''',
  'The tests check that files exist and a few keys.',
  [MGR, LOG], [('report', f'{MGR} _save_log')], (), ['summary files', 'log file'])
P('P30', 'The output of each optimizer goes to its own file',
  '''If separate output is configured, everything an optimizer and the task within it print or write to the error stream
  appears completely and in order in the file of that optimizer and nowhere else (of an optimizer killed by force, at least
  nothing false); the file starts anew when the optimizer is resumed. What other parts and threads of the program print
  never appears there and reaches the console completely, during the run and afterwards. Otherwise no such files are made.''',
  'schedules configurations', 'optimizers printing alternately, ending and starting, all interleavings within the bound, '
  'for threads and processes',
  SCHED + 'One optimizer prints in the tests.',
  [BE, 'glompo/common/wrappers.py', MGR], [('thread redirection', f'{BE} ThreadPrintRedirect'),
                                          ('process redirection', 'glompo/common/wrappers.py process_print_redirect')],
  (), ['print stream files'])
P('P31', 'An optimizer sees the function exactly as the user wrote it',
  '''Each evaluation an optimizer requests calls the function once with exactly that point and returns its value
  unchanged; the log receives a snapshot of point and value that later changes by the optimizer do not affect. Detailed
  logging records the additional values without changing what the optimizer sees. The end of the optimizer is announced
  after its last evaluation, whatever way it ends.''',
  'inputs schedules programs', '''all sequences of plain and detailed calls up to the depth bound, functions with and
  without detailed form and column description, points that are reused by the optimizer''',
  'The wrapper is tested with one call.',
  [BO, FN], [('wrapper', f'{BO} _MessagingWrapper')], (), ['function calls', 'records'])
P('P32', 'Parallel evaluation of a generation keeps points and values together',
  '''The covariance-matrix optimizer evaluates each point of a generation exactly once, on as many workers as it is
  allowed, and every value is assigned to the point that produced it, whatever the completion order; a stop request in
  the middle ends it properly; a checkpoint in the middle waits until nothing is being evaluated and contains every
  evaluation made; solutions shared by others are kept and used.''',
  'schedules', 'all completion orders within the bound for generations and pools of small size',
  'Completion order is left to chance in the tests.',
  ['glompo/optimizers/cmawrapper.py'], [('parallel map', 'glompo/optimizers/cmawrapper.py parallel_map')], (),
  ['values told to the strategy'])
P('P33', 'Loading a checkpoint applies overrides and limits correctly',
  '''When a checkpoint is loaded, settings given explicitly replace the stored ones and all others are kept; if fewer
  slots are allowed than the optimizers need, the slots are divided so that the limit is respected, or loading is refused
  if that is impossible. The task comes from the checkpoint, else from the loader, else from the argument.
  A manager is initialised exactly once: a further attempt changes nothing, and one that is not initialised does not start.''',
  'configurations inputs', '''all combinations of number of optimizers, their slots and the new limit; of stored, loadable
  and supplied tasks, working or failing; of overrides''',
  'Two slot limits and three task sources are tested.',
  [MGR], [('loading', f'{MGR} load_checkpoint')], (), ['loaded manager', 'started optimizers'])
P('P34', 'An interrupt or internal error ends the run in order',
  '''If the user interrupts, or any plug-in (criterion, selector, generator, hunting condition) raises, at any moment while
  the manager runs, or writing the summary fails, the run still returns the best result so far with the reason, tells every optimizer to stop, leaves no process behind,
  writes the report that was asked for and closes the log.''',
  'crash_points schedules fault_sequences', 'an interrupt at every step of the manager; an error in every call of every '
  'plug-in',
  'An interrupt arrives at one moment in the tests.',
  [MGR], [('emergency end', f'{MGR} start_manager'), ('stopping', f'{MGR} _stop_all_children')], (),
  ['return value', 'live children', 'report files'])
P('P35', 'The helper functions compute what they say',
  '''The published helpers - bounds validation, running minimum, nested text formatting, presentation of numbers and memory
  sizes, flattening, column inference, YAML forms, working directory, split logs - give the documented result for every input.''',
  'inputs', 'all inputs up to the size bound over small alphabets',
  'A few examples are tested.',
  ['glompo/common/helpers.py'], [('helpers', 'glompo/common/helpers.py')], (), ['return values'])
P('P36', 'The random-search optimizer respects bounds, budget and stop requests',
  '''The shipped random search evaluates only points within the bounds, at most as many as configured, returns the best of
  them, stops at once when asked to and after a checkpoint makes exactly the remaining evaluations.''',
  'inputs histories schedules', 'all extreme random draws, budgets, and stop or checkpoint requests at every point',
  'It is run once with random numbers.',
  ['glompo/optimizers/random.py'], [('random search', 'glompo/optimizers/random.py')], (), ['evaluations', 'result'])
P('P37', 'The benchmark functions are what the documentation says',
  '''Every benchmark function gives the documented formula at every point of its domain, whatever the sequence type, leaves the
  point alone and takes the configured delay; bounds, parameters and shifts are as documented; the documented minimum is
  attained at the documented place, which is within the bounds, and no point is lower; uncertain minima are announced; the
  Lennard-Jones gradient is the derivative.''',
  'inputs', 'every point of a lattice x dimensions x settings x random draws',
  'They are not tested at all.',
  ['glompo/benchmark_fncs.py'], [('functions', 'glompo/benchmark_fncs.py')], (), ['function values'])
P('P38', 'The wrappers of external optimizers obey the manager like the built-in ones',
  '''Whatever the manager says and when: an optimizer taken from an external library (Nevergrad, GFLS, SciPy) reports every
  evaluation with its value, evaluates the points the library asks for and tells the library the value of the very point,
  returns the best it found where it returns a result (Nevergrad, SciPy), uses no more workers than it has, obeys stop and pause within the evaluations in flight, takes over shared solutions, gives
  one reason to the manager when it ends, calls the callbacks of the user, and can be stored and
  continued where it stood; every documented method can be run.''',
  'schedules histories', 'all sequences of signals x moments x backends; all methods x settings',
  'The libraries decide when control returns; the tests only run if they are installed.',
  ['glompo/optimizers/scipy.py', 'glompo/optimizers/nevergrad.py', 'glompo/optimizers/gfls.py'],
  [('wrappers', 'glompo/optimizers')], (), ['evaluations', 'signals', 'messages'])
P('P39', 'The live picture shows exactly what happened',
  '''With visualisation on, the picture holds a stream per optimizer with exactly its recorded evaluations (its running best if
  elitist, at least the window if truncated), a mark at the right point for every kill, convergence, crash, pause and
  checkpoint, is redrawn and filmed as often as configured, survives a checkpoint, is closed at the end, refuses impossible
  settings and never swallows an interrupt.''',
  'schedules inputs operation_sequences', 'all sequences of events and settings; all schedules and interrupts of the run',
  'A stream is filled by hand twice.',
  ['glompo/core/scope.py', MGR], [('picture', 'glompo/core/scope.py')], (), ['scope streams', 'scope marks', 'movie frames'])
P('P40', 'Checkpoints are taken when they were asked for',
  '''A checkpoint is attempted in the first pass in which more than the configured time or number of evaluations has gone by
  since the last one of its kind (also of earlier sessions, also if that one failed), once before the start and once at the
  end if so configured, and at no other time.''',
  'schedules histories', 'all schedules; sessions resumed from any checkpoint',
  'The tests look whether files appear at all.',
  [MGR], [('when', f'{MGR} start_manager'), ('control', 'glompo/core/checkpointing.py')], (), ['checkpoint attempts'])
P('P41', 'The force-field interface translates faithfully',
  '''For every set of parameters and every choice of active ones: relative and absolute indices, and real and scaled values,
  are translated exactly and reversibly; setting, toggling and reweighing change what was named and nothing else, and
  parameters which must not be activated are left alone unless forced; an evaluation computes the error at the real values of
  the point asked for, and error, residuals, validation part and column headers agree with each other; a failed evaluation
  gives infinity and other errors are not swallowed; files are stored and loaded as documented, pickles having priority; the
  wrapper hands settings and result through.''',
  'inputs', 'all small parameter sets x masks x arguments x files present',
  'The tests of this interface need a library that is not available; they use one parameter set.',
  ['glompo/interfaces/params.py'], [('interface', 'glompo/interfaces/params.py')], (), ['parameter sets', 'files present'])

NA = {
}

SRC = 'the real code, executed under a controlled scheduler (virtual threads, processes, pipes, clock)'
NOTE_RUN = ('Every schedule within the deviation bound of every listed scenario is executed on the real manager and '
            'judged by an independent oracle. Trusted: the virtual threads/processes/pipes/clock of mc/virt.py, the '
            'scenario alphabet, the bounds.')
NOTE_SEQ = ('Every combination of the listed choices up to the bound is executed on the real code and compared with an '
            'independent reference. Trusted: the reference, the alphabet and the bounds.')
TECH_RUN = 'stateless model checking of the implementation (bounded schedules and faults)'
TECH_SEQ = 'exhaustive enumeration of operation sequences/inputs on the implementation (bounded)'
SEQ = 'P15 P18 P19 P21 P22 P23 P24 P25 P28 P16 P31 P32 P35 P36 P37 P38 P41'.split()


def built():
    s = ''
    for f in sorted(os.listdir(os.path.join(HERE, 'mc'))):
        if f.startswith('p_') and f.endswith('.py'):
            s += open(os.path.join(HERE, 'mc', f)).read()
    return set(re.findall(r"^    '(P\d\d)': ", s, re.M))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    have = built()
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in have:
            seq = i in SEQ
            checks.append(dict(property=i, quick_cmd=f'./check {i} --tier quick',
                               thorough_cmd=f'./check {i} --tier thorough',
                               technique=TECH_SEQ if seq else TECH_RUN, level='model_checking',
                               level_note=NOTE_SEQ if seq else NOTE_RUN))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    m = dict(version=1, setup_cmd='./py -c "import mc.boot"', checks=checks, not_applicable=na,
             notes='No hooks in /repo. See DESIGN.md; known-findings.txt lists repaired and recorded defects.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(PROPS), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()
