"""Rare conditions a run went through, counted to know what an exploration has reached."""
import re

from .facts import facts

OLD = re.compile(r'glompo_manager_log\.yml|trajectories[^/]*\.png|opt[^/]*_parms\.png')


def reach(w):
    c = {}

    def add(k, n=1):
        if n:
            c[k] = c.get(k, 0) + n

    if getattr(w, 'direct', None) is not None:
        for k, v in w.direct.get('reach', {}).items():
            add(k, v)
        return c
    for F in facts(w):
        o = F.o
        add('sessions')
        if o.get('setup_exc') is not None:
            add('setup_refused')
        if o.get('skipped'):
            add('no_checkpoint_to_resume')
            continue
        if o.get('crashed'):
            add('manager_crashed')
        if o.get('stuck'):
            add('stuck')
        if o.get('kind') == 'load' and o.get('returned'):
            add('resumed')
        add('optimizers', F.n('opt_begin'))
        add('evaluations', F.n('eval'))
        add('accepted', len(F.iters))
        add('accepted_nan', sum(1 for i in F.iters if i[3] != i[3]))
        add('hunt_evals', F.n('hunt_eval'))
        add('injects', F.n('inject'))
        add('messages', F.n('log_msg'))
        add('threads_sessions' if F.threads else 'process_sessions')
        conds = [op.cond for op in F.opts.values() if op.cond]
        add('kills_hunt', sum(1 for x in conds if x.startswith('GloMPO Termination') and 'User STOP' not in x))
        add('kills_user', sum(1 for x in conds if 'User STOP' in x))
        add('forced', sum(1 for x in conds if 'Forced' in x))
        add('converged', sum(1 for x in conds if x.startswith('Optimizer conv')))
        add('ended_silently', sum(1 for x in conds if 'Normal termination' in x))
        add('ended_in_error', sum(1 for x in conds if 'Error termination' in x))
        add('stopped_at_end', sum(1 for x in conds if x == 'GloMPO Convergence'))
        add('late_results_after_kill', sum(1 for op in F.opts.values() for v in [op.end_conds[0]] if
                                           v[1].startswith('GloMPO Term') and any(e[0] > v[0] for e in op.evals))
            if all(op.end_conds for op in F.opts.values()) else 0)
        add('multi_worker', sum(1 for op in F.opts.values() if (op.workers or 1) > 1))
        if F.reason == 'User Interrupt':
            add('interrupted')
        elif F.reason == 'GloMPO Crash':
            add('error_end')
        elif F.ended_all_dead():
            add('all_dead_end')
        elif F.reason is not None:
            add('exit_condition_end')
        for ck in F.ckpts:
            if ck['exc']:
                add('ckpt_failed_raised')
            elif ck['seq1'] is None:
                add('ckpt_unfinished')
            elif set(ck.get('after', ())) - set(ck['before']) or ck.get('after'):
                add('ckpt_done' if ck['started'] else 'ckpt_at_init')
                if ck['started'] and ck['alive0']:
                    add('ckpt_with_live_optimizers')
        add('opt_saves', F.n('opt_save'))
        add('restored_opts', sum(1 for op in F.opts.values() if op.restart))
        add('user_errors', F.n('user_error'))
        add('h5_read', int('h5' in o))
        add('yaml_read', int('yaml' in o))
        add('streams_read', int('streams' in o))
        st = o.get('start_tree')
        if st is not None and any(OLD.fullmatch(n.rsplit('/', 1)[-1]) or n.endswith('/glompo_log.h5') for n in st):
            add('old_results')
            add('refused_old_results', int(type(o.get('run_exc')).__name__ == 'FileExistsError'))
        add('logs_read', int('logs' in o))
        add('prints', F.n('print'))
        add('prints_of_others', F.n('print_other'))
        add('fs_faults', F.n('fs_fault'))
    return c
