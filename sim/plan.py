"""Which workloads decide which property, and how much of them a run explores."""

# property -> (profiles with weights, quick runs, what makes a run count as non-trivial, level note extras)
PLAN = {
    'C01': {'profiles': [('c01', 6), ('c03', 2), ('mixed', 2)], 'quick': 900},
    'C02': {'profiles': [('c02', 6), ('mixed', 1)], 'quick': 700},
    'C03': {'profiles': [('c03', 6), ('c01', 1), ('mixed', 1)], 'quick': 600},
    'C04': {'profiles': [('c04', 6), ('mixed', 1)], 'quick': 900},
    'C05': {'profiles': [('c05', 6), ('mixed', 1)], 'quick': 600},
    'C06': {'profiles': [('c06', 6), ('mixed', 1)], 'quick': 600},
    'C07': {'profiles': [('c07', 1)], 'quick': 8000},
    'C08': {'profiles': [('c08', 8), ('mixed', 1)], 'quick': 700},
    'C09': {'profiles': [('c09', 1)], 'quick': 800},
    'C10': {'profiles': [('c10', 1)], 'quick': 800},
    'C12': {'profiles': [('c12', 1)], 'quick': 500},
    'C13': {'profiles': [('c13', 5), ('c12', 1)], 'quick': 600},
    'C14': {'profiles': [('c14', 1)], 'quick': 600},
    'C15': {'profiles': [('c15', 1)], 'quick': 350},
    'C16': {'profiles': [('c16', 1)], 'quick': 500},
    'C17': {'profiles': [('c17', 1)], 'quick': 400},
    'C18': {'profiles': [('c18', 1)], 'quick': 400},
    'C19': {'profiles': [('c19', 1)], 'quick': 600},
    'C20': {'profiles': [('c20', 1)], 'quick': 800},
    'C21': {'profiles': [('c21', 1)], 'quick': 900},
    'C22': {'profiles': [('c22', 1)], 'quick': 700},
    'C11': {'profiles': [('c06', 2), ('c02', 2), ('mixed', 2)], 'quick': 700},
}


def jobs(prop, tier, seed):
    """ Deterministic list of (profile, seed). """
    p = PLAN[prop]
    n = p['quick'] * (1 if tier == 'quick' else 20)
    tot = sum(w for _, w in p['profiles'])
    wheel = [name for name, w in p['profiles'] for _ in range(w)]
    out, k = [], {}
    for i in range(n):
        name = wheel[i % tot]
        k[name] = k.get(name, 0) + 1
        out.append((name, seed * 1_000_000 + k[name]))
    return out

# property -> (counters of which one must be positive for a run to count as non-trivial, in words)
NONTRIVIAL = {
    'C01': (('evaluations',), 'optimizers ran and evaluated'),
    'C02': (('ended_in_error', 'ended_silently', 'messages', 'forced'), 'an optimizer failed'),
    'C03': (('stopped_at_end', 'interrupted', 'error_end'), 'the run ended while optimizers were active'),
    'C04': (('evaluations',), 'optimizers ran and evaluated'),
    'C05': (('accepted',), 'evaluations were accepted'),
    'C06': (('accepted',), 'evaluations were accepted'),
    'C07': (('chunks_of_several', 'put_nowait_full', 'put_full', 'queue_full'), 'the queue was full or its cache used'),
    'C08': (('kills_hunt',), 'an optimizer was hunted down'),
    'C09': (('kills_user',), 'stop files were put down'),
    'C10': (('forced',), 'an optimizer was forcibly terminated'),
    'C11': (('optimizers',), 'optimizers ran'),
    'C12': (('ckpt_with_live_optimizers',), 'a checkpoint was made while optimizers were active'),
    'C13': (('ckpt_done', 'ckpt_at_init', 'ckpt_failed_raised', 'ckpt_unfinished'), 'a checkpoint was attempted'),
    'C14': (('ckpt_done', 'ckpt_at_init', 'ckpt_failed_raised', 'ckpt_unfinished'), 'a checkpoint was attempted'),
    'C15': (('resumed',), 'a session was resumed from a checkpoint'),
    'C17': (('h5_read', 'yaml_read'), 'output files were written and read back'),
    'C18': (('old_results',), 'results of an earlier run were there at the start'),
    'C19': (('injects',), 'solutions were shared'),
    'C20': (('streams_read', 'logs_read'), 'print streams or logs were split'),
    'C21': (('exit_condition_end', 'all_dead_end'), 'the run ended'),
    'C22': (('interrupted', 'error_end', 'fs_faults'), 'the run was interrupted, or a component or output failed'),
    'C16': (('ckpt_done', 'ckpt_at_init', 'ckpt_failed_raised'), 'a checkpoint was attempted'),
}

COMPONENTS = {
    'default': {
        'real': 'all of glompo (manager, queue, threads/process start, logger, checkpointing, hunters, checkers, '
                'selectors, generators, BaseOptimizer protocol), threading/queue/multiprocessing Python code above the '
                'primitives, PyTables, dill, yaml, tarfile, matplotlib',
        'stub': 'locks, thread and process start, pipes, multiprocessing.Manager server, clocks and sleeping, signals, '
                'psutil, directory order (simulated); file contents are real files in a scratch directory behind a '
                'fault-injecting open(); optimizers and objective are scripted through the public extension points'},
    'assumptions': [
        'simulated processes share one interpreter: objects sent through process boundaries are pickled, module globals '
        '(e.g. numpy.random state) are shared',
        'switches between tasks happen at synchronisation and I/O operations and, in glompo/core/_backends.py, at '
        'every statement',
        'a seeded sample of schedules and faults, not all of them'],
}
