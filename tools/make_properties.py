"""Writes /verif/properties.jsonl (run by hand when a property is added or reworded)."""
import json, pathlib
P = []
M = 'glompo/core/manager.py'
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': state or [],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})

prop('C01', 'An optimization always comes to an end',
     'Once the exit condition of an optimization holds, or all its optimizers have ended and no more may be started, '
     'the run returns to the caller within a bounded time. Neither a full results queue, a paused, crashed, exited or '
     '(where forced termination is allowed) hanging optimizer, nor any number of concurrently finishing optimizers can '
     'leave the run or one of its cooperative optimizers blocked forever.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every interleaving of manager, optimizers and queue server; every crash/exit/hang of an optimizer; both backends, any number of slots',
     'the tests run a handful of fixed timings with cooperative optimizers; deadlocks need a full queue or a specific race between end-of-run clean-up, checkpointing and optimizers that are just ending',
     [M, 'glompo/core/_backends.py', 'glompo/optimizers/baseoptimizer.py'],
     [('main loop exit test', 'GloMPOManager.start_manager'), ('queue purge and join at the end', 'GloMPOManager._stop_all_children'),
      ('checkpoint synchronisation loops', 'GloMPOManager._checkpoint_optimizers')],
     ['return of start_manager', 'liveness of optimizer tasks after it'])
prop('C02', 'A failing optimizer never takes the optimization down',
     'Whatever one optimizer does (raise, die, exit without a word, finish at an awkward moment, be killed by the system), '
     'the manager records it and carries on with the others; the run never ends in a manager crash because of it. '
     'The only optimizer-related run errors are the two documented ones: optimizers that crash immediately every time '
     'they are started, and settings under which no available optimizer fits in the slots.',
     ['schedules', 'fault_sequences', 'histories'],
     'any optimizer failing at any point of its life, relative to any manager activity (spawning, hunting, sharing, stopping, checkpointing, shutdown)',
     'tests crash one optimizer at one fixed point while nothing else is going on',
     [M, 'glompo/core/optimizerlogger.py', 'glompo/optimizers/baseoptimizer.py'],
     [('signal handling', 'GloMPOManager._check_signals'), ('child inspection', 'GloMPOManager._inspect_children'),
      ('crash reporting', 'BaseOptimizer._minimize')],
     ["the returned result's end condition", 'summary file exit condition', 'warnings'])
prop('C03', 'Nothing is left running or open when a run returns',
     'When a run returns, for whatever reason (convergence, all optimizers ended, user interrupt, manager error), every optimizer process it started '
     'is dead or has been sent a termination signal, every cooperative optimizer has been told to stop and has stopped '
     'within the configured end timeout, and the requested output files are written and closed.',
     ['schedules', 'fault_sequences', 'configurations'],
     'all end reasons, both backends, optimizers that cooperate, ignore stop signals, block on the results queue or crash while being stopped',
     'tests end runs in quiet situations; leaks appear when optimizers are blocked or just starting when the run ends',
     [M], [('clean-up', 'GloMPOManager._stop_all_children'), ('finally block', 'GloMPOManager.start_manager')],
     ['liveness of children after start_manager', 'log files in the working directory'])
prop('C04', 'Concurrency limit, refilling and unique optimizer numbering',
     'At no instant do the workers of the living optimizers add up to more than the configured maximum number of jobs; '
     'optimizers are numbered 1, 2, 3, ... in order of starting, each number used once also across resumes. '
     'While spawning is allowed and an available optimizer fits in the free slots, free slots are refilled; after spawning is stopped nothing new is started.',
     ['schedules', 'histories', 'configurations'],
     'every order and timing of optimizer starts, ends, kills and crashes; every mix of worker counts; multiple sessions',
     'tests look at a few starts with fixed worker counts',
     [M, 'glompo/opt_selectors/baseselector.py', 'glompo/opt_selectors/spawncontrol.py'],
     [('slot filling', 'GloMPOManager._fill_optimizer_slots'), ('optimizer set-up', 'GloMPOManager._setup_new_optimizer')],
     ['optimizer start/end instants', 'opt ids', 'worker counts'])
prop('C05', 'The reported solution is the best accepted evaluation',
     'The solution a run reports (return value, public result, summary files and log) is exactly one real evaluation: its value is '
     'what the task returned for that very parameter vector, evaluated by the optimizer number and type named as origin, and no accepted evaluation has a lower value. '
     'It never gets worse during a run or across checkpoint and resume.',
     ['schedules', 'histories', 'inputs'],
     'every arrival order of results, ties, infinite and repeated values, any number of optimizers, sessions',
     'tests check simple sequences of one or two optimizers; attribution needs interleaved results of many',
     [M, 'glompo/core/optimizerlogger.py'],
     [('best tracking', 'BaseLogger.put_iteration'), ('result update', 'GloMPOManager._update_best_result')],
     ['manager.result', 'start_manager return', 'glompo_manager_log.yml', 'HDF5 attributes'])
prop('C06', 'Every evaluation is logged once, in order, and counted',
     'Every evaluation made by an optimizer that has not been shut down reaches the log exactly once, with its own vector, value and extra columns, '
     "in the order the optimizer made it; the run's evaluation counter equals the number of logged evaluations and they are numbered 1, 2, 3, ... without gaps. "
     'When a run ends because all optimizers ended by themselves, no evaluation is missing; if it ends earlier, what is logged is a prefix of what each optimizer did.',
     ['schedules', 'histories', 'configurations'],
     'any speed relation between optimizers and manager, including optimizers so fast that results are cached and sent in chunks',
     'tests use few slow results, so caching never starts and nothing is pending when optimizers end',
     ['glompo/core/_backends.py', M, 'glompo/core/optimizerlogger.py', 'glompo/optimizers/baseoptimizer.py'],
     [('result forwarding', '_MessagingWrapper'), ('queue', 'ChunkingQueue'), ('processing', 'GloMPOManager._process_results')],
     ['iteration histories of the log', 'f_counter', 'ground truth recorded by the task'])
prop('C07', 'The results queue neither loses, duplicates nor reorders items',
     'For any number of concurrent producers mixing its blocking, non-blocking, cache-adding and flushing operations with a concurrent consumer, '
     'every item handed to the results queue is delivered exactly once and items of one producer are delivered in the order it handed them over, '
     'provided the cache is flushed at the end; the number of waiting chunks never exceeds the configured size. No operation blocks forever while the consumer keeps consuming.',
     ['schedules'],
     'every interleaving of producers and consumer, every queue size and chunk size',
     'tests call the queue from one or two threads in one order',
     ['glompo/core/_backends.py'], [('chunking and cache lock', 'ChunkingQueue')], ['items returned by get'])
prop('C08', 'Only justified optimizers are hunted down, and kills take effect',
     'An optimizer is shut down by hunting only if, at that moment, the configured kill condition evaluated on the logged history is true for it, it is alive, and it is not the holder of the best solution; '
     'hunts take place only after at least the configured number of evaluations since the previous one and not less often than results allow. '
     'A hunted optimizer receives exactly one stop signal (or termination), stops, and none of its later evaluations is counted or logged.',
     ['schedules', 'histories', 'inputs'],
     'every arrival order of results and signals around a hunt, all kill conditions and combinations',
     'tests run hunters on hand-written logs or one hunt in one schedule',
     [M, 'glompo/hunters/basehunter.py', 'glompo/hunters/bestunmoving.py', 'glompo/hunters/evalsunmoving.py', 'glompo/hunters/parameterdistance.py',
      'glompo/hunters/stepsize.py', 'glompo/hunters/lastptsinvalid.py', 'glompo/hunters/min_fcalls.py', 'glompo/hunters/timeannealing.py',
      'glompo/hunters/type.py', 'glompo/hunters/valueannealing.py'],
     [('hunt', 'GloMPOManager._start_hunt'), ('shutdown', 'GloMPOManager._shutdown_job')],
     ['victims and end conditions', 'signals received by optimizers', 'log'])
prop('C09', 'User stop files stop exactly the optimizer they name',
     'A file STOP_n placed in the working directory while optimizer n is alive and known to the manager makes the manager stop optimizer n, record the user intervention as its end condition and consume the file; '
     'no other optimizer is affected. Files naming unknown, ended or malformed optimizers, or files that vanish again, have no effect on the run.',
     ['schedules', 'inputs', 'histories'],
     'files placed or removed at any instant, for any name, including optimizers that are just ending',
     'tests place one file for one living optimizer',
     [M], [('stop files', 'GloMPOManager._is_manual_shutdowns')], ['working directory', 'end conditions', 'signals received'])
prop('C10', 'Hanging optimizers are forcibly ended, active ones never',
     'With forced termination enabled and a process backend, an optimizer that has given no sign of life, or has ignored a kill signal, for longer than the configured time is terminated soon after and recorded as such. '
     'An optimizer that keeps delivering results or signals within that time is never forcibly terminated, and without the option (or with threads) nothing ever is during the run.',
     ['schedules', 'fault_sequences'],
     'every pattern of result delays, hangs and ignored signals against every time-out, including time spent in checkpoints',
     'real-time tests can only use one or two short time-outs',
     [M], [('hang detection', 'GloMPOManager._inspect_children')], ['termination instants', 'end conditions'])
prop('C11', 'Each optimizer ends with exactly one status and the counters add up',
     'After a run every started optimizer has exactly one end condition and stop time in the log, and it matches what truly happened to it: converged by itself, hunted, stopped by the user, forcibly terminated, crashed, exited silently, or stopped by the end of the run. '
     'The numbers of optimizers started, killed and converged and of hunts, reported in the result and summary files, agree with those histories.',
     ['schedules', 'histories', 'fault_sequences'],
     'every coincidence of finishing, crashing, being hunted, checkpointed and stopped',
     'tests check single endings in isolation',
     [M, 'glompo/core/optimizerlogger.py'], [('signals', 'GloMPOManager._check_signals'), ('inspection', 'GloMPOManager._inspect_children')],
     ['end_cond/t_stop metadata', 'counters in the summary files'])
prop('C12', 'A checkpoint is a consistent snapshot',
     'A checkpoint contains the state of exactly the optimizers alive and not shut down when it is made, and its log and counters contain exactly the evaluations those saved states have made: none that a saved optimizer has made is missing '
     'and none that it does not know about is included. All of the checkpoint describes one single moment between evaluations.',
     ['schedules', 'histories'],
     'a checkpoint at any instant, with results queued or cached, optimizers ending, being hunted or crashing while it is being made',
     'tests checkpoint a few quiet optimizers at one moment',
     [M, 'glompo/optimizers/baseoptimizer.py', 'glompo/core/optimizerlogger.py'],
     [('synchronisation', 'GloMPOManager._checkpoint_optimizers'), ('pausing', 'BaseOptimizer._prepare_checkpoint')],
     ['contents of the checkpoint archive'])
prop('C13', 'Making a checkpoint does not disturb the run',
     'After a checkpoint attempt, successful or not, every optimizer that was alive continues exactly where it was: none stays paused, stops, skips or repeats an evaluation because of it. '
     'A checkpoint that fails while failures are configured to be tolerated leaves the run going; if they are configured to be raised the run ends in a reported error.',
     ['schedules', 'fault_sequences'],
     'checkpoints at any instant with any disk or saving error at any step of their construction',
     'tests have no disk faults and checkpoint quiet optimizers',
     [M, 'glompo/optimizers/baseoptimizer.py'], [('release', 'GloMPOManager._toggle_optimizers'), ('error handling', 'GloMPOManager.checkpoint')],
     ['progress of the optimizers after a checkpoint', 'end condition'])
prop('C14', 'Finished checkpoints survive failures and crashes',
     'At every instant, including a crash of the manager at any point or any disk error while a new checkpoint is written, every file under a checkpoint name is a complete loadable checkpoint, and a checkpoint that was completed earlier is still available '
     'unless the retention setting allowed its removal. Old checkpoints are removed only after the new one is complete, newest ones are kept, and files that are not checkpoints are never touched; a failed attempt leaves no debris that is mistaken for a checkpoint.',
     ['crash_points', 'fault_sequences', 'configurations'],
     'a crash or disk error at any file operation, with overwriting and non-overwriting names and any retention number',
     'no test injects crashes or disk errors',
     [M, 'glompo/core/checkpointing.py'], [('archive construction', 'GloMPOManager.checkpoint'), ('retention', 'GloMPOManager.checkpoint')],
     ['files in the checkpoint directory'])
prop('C15', 'Resuming continues from the exact checkpointed state',
     'Loading a checkpoint restores counters, best result, histories, time used, settings and every saved optimizer exactly; the resumed run continues evaluation and optimizer numbering from there, each restored optimizer continues where it was, '
     'ended optimizers stay ended, and overriding arguments change only what they name. A matching existing log file is rolled back to the checkpoint and appended to, a file of another optimization is refused.',
     ['crash_points', 'histories', 'configurations'],
     'checkpoints taken at any instant, any number of sessions, log file ahead of or equal to the checkpoint, normal end or crash of the earlier session',
     'tests resume from one or two fixed checkpoints',
     [M, 'glompo/core/optimizerlogger.py', 'glompo/optimizers/baseoptimizer.py'],
     [('load', 'GloMPOManager.load_checkpoint'), ('roll back', 'GloMPOManager.start_manager')],
     ['manager state after load', 'log after the resumed run'])
prop('C16', 'Checkpoints are made when and named as requested',
     'Checkpoints are made at initialisation, at convergence, each time more than the configured time or number of evaluations has passed since the last scheduled one, and when the user asks through a CHKPT file (which is consumed), and at no other time. '
     'Each carries a name of the configured format with the current time or the next unused number, so that numbered checkpoints never overwrite each other.',
     ['schedules', 'histories', 'configurations'],
     'every schedule of results, clock values and user requests',
     'real-time tests cannot cover long intervals or clock changes',
     [M, 'glompo/core/checkpointing.py'], [('schedule', 'GloMPOManager.start_manager'), ('names', 'CheckpointingControl.get_name')],
     ['checkpoint directory', 'checkpoint history'])
prop('C17', 'The log file and summary are a complete record of the run',
     'The HDF5 log written by a run contains, for every optimizer started, its type, start and stop time, end condition, messages and complete evaluation table, plus run settings, counters, exit reason and best solution, agreeing with the YAML summary and with the returned result. '
     'After resumes the file still holds every accepted evaluation exactly once, and at each checkpoint everything accepted up to then has been flushed.',
     ['histories', 'schedules', 'configurations'],
     'any history of starts, ends, kills, crashes, messages, checkpoints and resumes',
     'tests read back small logs of quiet runs',
     ['glompo/core/optimizerlogger.py', M], [('file logger', 'FileLogger'), ('saving', 'GloMPOManager._save_log')],
     ['glompo_log.h5', 'glompo_manager_log.yml'])
prop('C18', 'Results of earlier runs are only removed with permission',
     'Starting a run in a directory holding results of an earlier run fails before anything is changed or started, unless overwriting was allowed; then exactly the old result files are removed and nothing else. '
     'A resume never removes the log file it continues.',
     ['configurations', 'histories', 'fault_sequences'],
     'any set of files in the directory, fresh and resumed runs',
     'tests check one file layout',
     [M], [('purge', 'GloMPOManager._purge_old_results')], ['working directory before and after'])
prop('C19', 'The best solution is shared with all other optimizers, nothing else is',
     'With sharing on, each time a new overall best evaluation is accepted every other living optimizer is sent exactly that vector and value once, and every optimizer sees the shared values strictly improving; '
     'with sharing off nothing is sent. Sharing to an optimizer that is ending or dead has no other effect.',
     ['schedules', 'inputs', 'fault_sequences'],
     'any order of results and optimizer ends, any values including zero, negative and infinite',
     'tests check one injection to one optimizer',
     [M, 'glompo/optimizers/baseoptimizer.py'], [('sharing', 'GloMPOManager._update_best_result'), ('inject', 'BaseOptimizer.inject')],
     ["optimizers' incumbents and received messages"])
prop('C20', 'Optimizer output goes to its own file and nowhere else',
     'With print-stream splitting on, everything an optimizer writes to standard output or error, and only that, ends up in order in the files with its number; what the manager or other threads print is unaffected, and an optimizer failing or finishing does not disturb the streams of others. '
     'With per-optimizer logging, log records of an optimizer likewise only go to its own log file.',
     ['schedules', 'fault_sequences'],
     'any interleaving of printing optimizers, crashes, thread identifier reuse',
     'tests print from one or two optimizers',
     ['glompo/core/_backends.py', 'glompo/common/wrappers.py', 'glompo/common/helpers.py', M],
     [('thread redirection', 'ThreadPrintRedirect'), ('process redirection', 'process_print_redirect'), ('log splitting', 'SplitOptimizerLogs')],
     ['print stream files', 'standard output'])
prop('C21', 'The run ends when, and only when, its exit condition is met',
     'A run without errors or interrupts ends exactly when its configured exit condition first evaluates true on the state of the run (evaluations, kills, conversions, starts, target value, session or total time, and combinations of these), or when no optimizers are alive and none may be started; '
     'the reported reason is the true one. It is not continued beyond the step in which the condition became true and never ended before.',
     ['histories', 'schedules', 'configurations'],
     'any history of results, kills, convergences and clock values over one or more sessions',
     'tests evaluate conditions on static mock managers',
     [M, 'glompo/convergence/basechecker.py', 'glompo/convergence/fmax.py', 'glompo/convergence/tmax.py', 'glompo/convergence/nkillsafterconv.py',
      'glompo/convergence/ftarget.py', 'glompo/convergence/nconv.py', 'glompo/convergence/nkills.py', 'glompo/convergence/omax.py', 'glompo/common/corebase.py'],
     [('exit test', 'GloMPOManager.start_manager'), ('checkers', 'BaseChecker')], ['end condition', 'state of the manager at the end'])
prop('C22', 'A user interrupt or manager error still yields an orderly, saved result',
     'An interrupt, an error raised by a user-supplied component (selector, generator, exit or kill condition) or a failing output, at any moment of a run makes it return (not raise) the best result accepted so far with the interrupt or error as end condition, '
     'after stopping all optimizers and writing the summary and log files requested.',
     ['fault_sequences', 'schedules', 'crash_points'],
     'an interrupt or error at every point of the manager loop, in every state of the optimizers',
     'tests interrupt at one point',
     [M], [('exception handling', 'GloMPOManager.start_manager')], ['return value', 'summary files', 'children'])
prop('C23', 'Starting points come from the configured generator',
     'Every new optimizer starts from exactly one fresh point of the configured generator: random points, and points blended from them, lie within the bounds; incumbent-based generators use the best solution accepted at that moment; '
     'a fixed point is always that point. Generators never fail whatever the state of the run, and restored optimizers are not given new starting points.',
     ['histories', 'schedules', 'inputs'],
     'any state of the run at which an optimizer is started (no results yet, ended, crashed or cleared optimizers, equal or infinite values)',
     'tests use static mock managers',
     ['glompo/generators/random.py', 'glompo/generators/best.py', 'glompo/generators/single.py', 'glompo/generators/exploit_explore.py', 'glompo/generators/basinhopping.py', M],
     [('generation', 'BaseGenerator.generate'), ('start', 'GloMPOManager._start_new_job')], ['x0 received by optimizers'])
prop('C24', 'Shipped optimizers obey the manager and their own limits',
     'The random and CMA-ES optimizers, with any number of workers, evaluate only points inside the bounds (CMA-ES also its starting point first), use exactly their evaluation budget unless stopped, report their convergence exactly once and last, and after a stop, pause or checkpoint signal stop, pause or save before starting more than the current iteration. '
     'A restored one continues with the remaining budget and its learned state.',
     ['schedules', 'histories'],
     'signals arriving at any instant of the iteration, any worker count',
     'tests send signals before or after the run, not during',
     ['glompo/optimizers/random.py', 'glompo/optimizers/cmawrapper.py', 'glompo/optimizers/baseoptimizer.py'],
     [('message handling', 'BaseOptimizer.check_messages'), ('loops', 'RandomOptimizer.minimize, CMAOptimizer.minimize')], ['evaluations and signals'])
prop('C25', 'Optimizers are selected by the documented policy',
     'The cycling selector starts the available optimizers strictly in turn, the chain selector the one belonging to the number of evaluations so far, the random selector any that fits, each with its configured settings; one that does not fit in the free slots is never started and does not lose its turn. '
     'Spawn control stops starting at exactly the configured number of evaluations or optimizers, for good, and the settings given to one optimizer are never changed by another.',
     ['histories', 'schedules', 'configurations'],
     'any sequence of starts, free slots and evaluation counts, across resumes',
     'tests call selectors with a fixed mock state',
     ['glompo/opt_selectors/cycle.py', 'glompo/opt_selectors/chain.py', 'glompo/opt_selectors/random.py', 'glompo/opt_selectors/spawncontrol.py', M],
     [('selection', 'BaseSelector.select_optimizer')], ['types and settings of the optimizers started'])
prop('C26', 'Benchmark functions return their documented optimum',
     'Every shipped benchmark function returns its documented minimum value at its documented minimiser and only finite values within its bounds.',
     ['inputs'], 'every dimension, setting and input vector', 'tests evaluate sample points',
     ['glompo/benchmark_fncs.py'], [('formulas', 'glompo/benchmark_fncs.py')], ['return values'])
prop('C27', 'Optional-package wrappers obey the manager protocol',
     'The scipy, nevergrad, GFLS and ParAMS based components obey the same start, stop, pause, checkpoint and logging rules as the other optimizers.',
     ['schedules', 'histories'], 'signals at any instant', 'their packages are optional and absent here',
     ['glompo/optimizers/scipy.py', 'glompo/optimizers/nevergrad.py', 'glompo/optimizers/gfls.py', 'glompo/interfaces/params.py'],
     [('wrappers', 'glompo/optimizers')], ['evaluations and signals'])
with open(pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
