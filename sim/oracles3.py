"""Property oracles about checkpoints and resuming (see oracles.py)."""
import re
from datetime import datetime

from .facts import facts, same
from .oracles2 import INF, shut_down


def made_by(w, F):
    """ The checkpoint a resumed session was loaded from, as it was observed when it was made (None if unknown). """
    t = F.o.get('target')
    if t is None:
        return None
    for c in reversed(w.ckpt_obs):
        if c['sess'] < F.i and c['name'] is not None and f"{c['name']}.tar.gz" == t.name:
            if c['seq1'] is None:
                return None         # crashed while it was made
            if c['new']:
                return c
            if c['sig0'].get(t.name) is None:
                return None
    return None


def chain_iters(w, i, until=INF):
    """ Accepted evaluations [(seq, oid, x, fx)] of session i and of those it continues, in order. """
    F = facts(w)[i]
    out = []
    if F.o.get('kind') == 'load':
        c = made_by(w, F)
        if c is None:
            return None
        out = chain_iters(w, c['sess'], c['seq1'])
        if out is None:
            return None
    return out + [it for it in F.iters if it[0] < until]


def refused_rightly(w, F):
    """ Loading may fail for a documented reason. """
    txt = F.o.get('setup_tb') or ''
    ov = F.sess.get('overrides') or {}
    if 'Insufficient max_jobs' in txt:
        return 'max_jobs' in ov
    if 'Failed to build task' in txt:
        return F.sess.get('task_from', 'none') == 'none' and not w.sc['task'].get('picklable', True)
    return False


def vectors(op):
    return [(x, fx) for _, x, fx in op.iters]


# ---------------------------------------------------------------------------------------------------- C12

def c12(w):
    fs = facts(w)
    for F in fs:
        o = F.o
        if o.get('kind') != 'load' or o.get('skipped'):
            continue
        c = made_by(w, F)
        if c is None:
            continue
        if o.get('setup_exc') is not None:
            if not refused_rightly(w, F):
                yield f'checkpoint {c["name"]} cannot be loaded: {o["setup_tb"][-500:]}'
            continue
        P = fs[c['sess']]
        L = o['loaded']
        loads = {e[3]: e for e in F.by.get('opt_load', ())}
        # counters and log describe the same evaluations
        if L['f'] != L['n_log']:
            yield f'checkpoint {c["name"]}: {L["f"]} evaluations counted, {L["n_log"]} logged'
        truth = chain_iters(w, c['sess'], c['seq1'])
        if truth is not None and L['f'] != len(truth):
            yield f'checkpoint {c["name"]}: {L["f"]} evaluations counted, {len(truth)} were accepted'
        for oid, e in loads.items():
            st = e[5]
            if st[0] != 'n_done':
                continue
            n, trail = st[1], st[2]
            hist = L['hist'].get(oid) or []
            if len(hist) != n:
                yield f'checkpoint {c["name"]}: optimizer {oid} was saved after {n} evaluations, ' \
                      f'{len(hist)} of them are in the saved log'
            elif any(not same(a, b) for a, b in zip(trail, hist)):
                yield f'checkpoint {c["name"]}: values of optimizer {oid} in the saved log are not those it was given'
        # the right optimizers
        again = any(d['converged'] for d in w.ckpt_obs if d['sess'] == c['sess'] and d['id'] < c['id'])
        for oid, op in P.opts.items():
            seq0, seq1 = c['seq0'], c['seq1']
            if (op.log_opt is None or op.log_opt > seq0) and not op.restart:
                continue
            if op.restart and op.begin is None:
                continue
            shut = shut_down(op)
            over = [s for s in [op.tx0(), P.exited(oid), op.killed, op.end] + [s for s, *_ in op.terms] +
                    [s for s, _ in op.fails] if s is not None]
            saves = [s for s, n, _ in op.saves if seq0 <= s <= seq1]
            if oid in loads:
                if shut is not None and shut < seq1:
                    yield f'checkpoint {c["name"]} contains optimizer {oid} which had been shut down'
                elif (P.exited(oid) or INF) < seq0 or (op.tx0() or INF) < (saves[-1] if saves else seq0):
                    yield f'checkpoint {c["name"]} contains optimizer {oid} which had ended'
            elif (shut is None or shut > seq1) and all(s > seq1 for s in over) and not again:
                yield f'checkpoint {c["name"]} misses optimizer {oid} which was alive'
            # what ended optimizers did is part of the moment, too
            if (P.exited(oid) or INF) < seq0 and (shut is None or shut > seq1) and not op.killed and not op.terms:
                n = sum(1 for s, *_ in op.evals if s < seq0)
                m = sum(1 for it in op.iters if it[0] < seq1)
                if n != m:
                    yield f'checkpoint {c["name"]}: {n} evaluations made by ended optimizer {oid}, {m} accepted'
        for oid in loads:
            if oid not in P.opts:
                yield f'checkpoint {c["name"]} contains optimizer {oid} nobody started'


# ---------------------------------------------------------------------------------------------------- C13

def c13(w):
    for F in facts(w):
        o = F.o
        if o.get('skipped') or 'started_at' not in o:
            continue
        mine = F.ckpts
        if o.get('stuck'):
            if mine and mine[-1]['seq1'] is None:
                yield 'the run is stuck in a checkpoint'
            elif mine:
                yield 'the run is stuck after a checkpoint: ' + str(o['leftover'])[:200]
            continue
        if o.get('crashed'):
            continue
        raising = (F.sess.get('ckpt') or {}).get('raise_checkpoint_fail')
        failed = [c for c in mine if c['exc'] and not c['exc'].startswith(('KeyboardInterrupt', 'SimKilled'))]
        if o.get('run_exc') is not None and not isinstance(o['run_exc'], (KeyError, FileExistsError)):
            yield 'start_manager raised ' + o['run_tb'][-400:]
            continue
        if raising and any(c['started'] for c in failed):
            if F.reason != 'GloMPO Crash':
                yield f'a failed checkpoint is to be reported as an error but the run ended with {F.reason!r}'
        elif failed and not raising and not F.user_error():
            yield f'a failing checkpoint ended the run although this is to be tolerated: {failed[0]["exc"]}'
        elif F.reason == 'GloMPO Crash' and not F.user_error() and not F.documented_crash() and not raising:
            yield f'session {F.i} ended in an error: {F.crash_text()[-500:]}'
        # a failure to be tolerated is reported
        if not raising:
            for c in mine:
                if c['seq1'] is not None and not c['exc'] and not c['new'] and c['name'] is not None and \
                        not any('Checkpointing failed' in m for s, si, _, m in w.warnings if c['seq0'] <= s <= c['seq1']):
                    yield f'checkpoint {c["name"]} was not made and nobody was told'
        if not mine:
            continue
        conv = [c['seq0'] for c in mine if c['converged']]
        over = min(conv + [F.last_probe or INF])
        if raising and failed:
            over = min(over, failed[0]['seq0'])
        hurt = F.by.get('interrupt_sent') or F.user_error()
        for oid, op in F.opts.items():
            # no evaluation is skipped or repeated
            step = F.script(oid).get('step', 1.0)
            if op.state and op.state[0] == 'n_done':
                k = op.state[1]
                for _, _, x in op.starts:
                    if x[1] != k * step:
                        yield f'optimizer {oid} evaluated {x} where its evaluation {k} is due'
                        break
                    k += 1
            # nothing stops because of a checkpoint
            early = [s for s, _ in op.rx if s < over]
            shut = shut_down(op)
            if early and not hurt and (shut is None or shut > next((p['seq'] for p in F.probes if p['seq'] > early[0]), INF)):
                yield f'optimizer {oid} was stopped though it was neither hunted nor stopped by the user'
            # nobody stays paused
            for c in mine:
                if c['seq1'] is None or hurt:
                    continue
                if op.begin is None or op.begin > c['seq0'] or (F.exited(oid) or INF) < c['seq1'] or op.hang or op.killed:
                    continue
                if (op.end or INF) < c['seq1'] or op.tx0() is not None and op.tx0() < c['seq1']:
                    continue
                t_end = F.probes[-1]['t'] if F.probes else c['t1']
                later = [s for s, *_ in op.starts + op.evals + op.tx + op.rx + op.saves if s > c['seq1']]
                later += [s for s in (op.end, F.exited(oid)) if s is not None and s > c['seq1']] + \
                         [s for s, *_ in op.terms if s > c['seq1']]
                if not later and t_end - c['t1'] > F.slowest(oid) * 3 + 15:
                    yield f'optimizer {oid} did nothing after checkpoint {c["name"]}'
                    break
            if op.fails or op.killed or op.terms or F.script(oid).get('save_fail'):
                continue
            if op.cond and 'Traceback' in op.cond or any('Traceback' in m for _, m in op.msgs):
                yield f'optimizer {oid} failed although it should not: {(op.cond or "")[:200]} {op.msgs[-1:]}'[:600]


# ---------------------------------------------------------------------------------------------------- C14

def fmt_re(fmt):
    rx = re.escape(fmt)
    for key, d in (('date', 8), ('year', 4), ('yr', 2), ('month', 2), ('day', 2), ('time', 6), ('hour', 2), ('min', 2), ('sec', 2)):
        rx = rx.replace(re.escape(f'%({key})'), '[0-9]{%d}' % d)
    return rx.replace(re.escape('%(count)'), '([0-9]{3,})') + r'\.tar\.gz'


def c14(w):

    order = {}          # name -> when it was last completed
    foreign = set()     # files in the checkpoint directory which the user put there
    for F in facts(w):
        o = F.o
        foreign |= {k.split('/')[1] for k in (F.sess.get('pre_files') or {}) if k.startswith('ckpts/')}
        if o.get('kind') == 'load' and not o.get('skipped') and o.get('setup_exc') is not None and not refused_rightly(w, F):
            yield f'{o["target"].name} cannot be loaded: {o["setup_tb"][-500:]}'
        tree = {k.split('/', 1)[1]: v for k, v in o.get('tree', {}).items() if k.startswith('ckpts/')}
        pre = {k.split('/', 1)[1]: v for k, v in o.get('pre_tree', {}).items() if k.startswith('ckpts/')}
        dirs = {n.split('/')[0] for n in tree if '/' in n}
        for n, err in (o.get('ckpts') or {}).items():
            if err and n not in foreign:
                yield f'{n} is not a complete checkpoint: {err}'
        for n in foreign:
            if n in pre and 'tree' in o and tree.get(n) != pre[n] and not any(re.fullmatch(fmt_re(c['format']), n) for c in F.ckpts):
                yield f'{n}, which is not a checkpoint, was touched'
        for c in F.ckpts:
            a, crashed = c['sig0'], c['seq1'] is None
            if crashed and not o.get('crashed'):
                continue
            rx = fmt_re(c['format'])
            name = f'{c["name"]}.tar.gz'
            a = {n: v for n, v in a.items() if n not in dirs}
            if crashed:
                b = {n: (s[0],) for n, s in tree.items() if n.endswith('.tar.gz') and '/' not in n}
                a1 = {n: (s[0],) for n, s in a.items()}
                new = name in b and (name not in a1 or b[name] != a1[name])
            else:
                b, a1, new = {n: v for n, v in c['sig1'].items() if n not in dirs}, a, c['new']
            gone = [n for n in a1 if n not in b or b[n] != a1[n] and n != name]
            changed = [n for n in gone if n in b]
            gone = [n for n in gone if n not in b]
            if changed:
                yield f'{changed} changed while {name} was made'
            if not new:
                if crashed and name in a1 and name in b:
                    gone = [n for n in gone if n != name]
                    new = True      # same size, cannot tell
                if gone and not new:
                    yield f'{gone} lost although {name} was not completed'
                    continue
            keep = c['keep']
            mine = [n for n in a1 if re.fullmatch(rx, n) and n != name]
            if gone and keep < 0:
                yield f'{gone} removed although all checkpoints are to be kept'
                continue
            bad = [n for n in gone if not re.fullmatch(rx, n)]
            if bad:
                yield f'{bad} removed, they do not belong to this series'
            # the newest are kept
            if keep >= 0 and new:
                rest = [n for n in mine if n not in gone]
                faulted = any(e[0] >= c['seq0'] and (crashed or e[0] <= c['seq1']) for e in F.by.get('fs_fault', ()))
                if gone and len(rest) < keep:
                    yield f'only {len(rest)} past checkpoints kept, {keep} wanted'
                elif not crashed and not faulted and len(rest) > keep:
                    yield f'{len(rest)} past checkpoints kept, only {keep} wanted'
                known = [n for n in mine if n in order]
                for g in gone:
                    for n in rest:
                        if g in order and n in order and order[g] > order[n]:
                            yield f'{g} removed while the older {n} is kept'
            if new:
                order[name] = c['id'] + 1


# ---------------------------------------------------------------------------------------------------- C15

SETTINGS = ('max_jobs', 'proc_backend', 'hunt_frequency', 'share', 'sf', 'detailed', 'split', 'aggressive', 'forced',
            'end_timeout', 'status_frequency', 'n_parms', 'bounds', 'types', 'hunter', 'overwrite', 'ckpt_control', 'working_dir')
NAMES = {'max_jobs': 'max_jobs', 'backend': 'proc_backend', 'hunt_frequency': 'hunt_frequency', 'share_best_solutions': 'share',
         'summary_files': 'sf', 'aggressive_kill': 'aggressive', 'force_terminations_after': 'forced',
         'end_timeout': 'end_timeout', 'status_frequency': 'status_frequency', 'overwrite_existing': 'overwrite',
         'is_log_detailed': 'detailed', 'split_printstreams': 'split', 'working_dir': 'working_dir',
         'killing_conditions': 'hunter', 'checkpoint_control': 'ckpt_control'}


def requested(w, sess):
    """ Settings of a new session in terms of the public state. """
    return {'max_jobs': sess['max_jobs'], 'proc_backend': sess['backend'] != 'threads', 'hunt_frequency': sess.get('hunt_freq', 100),
            'share': bool(sess.get('share')), 'sf': sess.get('sf', 0), 'aggressive': bool(sess.get('aggressive')),
            'forced': sess.get('force_after', -1) > 0, 'end_timeout': sess.get('end_timeout') or (None if sess['backend'] == 'threads' else 10),
            'overwrite': sess.get('overwrite', False), 'detailed': sess.get('detailed') or False,
            'split': sess.get('split', False)}


def c15(w):
    fs = facts(w)
    for F in fs:
        o = F.o
        if o.get('kind') != 'load' or o.get('skipped'):
            continue
        c = made_by(w, F)
        if c is None:
            continue
        if o.get('setup_exc') is not None:
            if not refused_rightly(w, F):
                yield f'loading {c["name"]} failed: {o["setup_tb"][-500:]}'
            continue
        P, L, ov = fs[c['sess']], o['loaded'], F.sess.get('overrides') or {}
        for k, key in (('f', 'f1'), ('o', 'o1'), ('conv', 'conv'), ('hunts', 'hunts'), ('victims', 'victims'), ('fx', 'fx'),
                       ('x', 'x')):
            if not same(L[k], c[key]) and L[k] != c[key]:
                yield f'{k} was {c[key]} at the checkpoint and is {L[k]} after loading'
        best = L.get('log_best')
        if best and L['fx'] is not None and (best['fx'] != L['fx'] or best['opt_id'] != (L['origin'] or {}).get('opt_id')):
            yield f'result {L["fx"]} of optimizer {L["origin"]} but the log names {best}'
        first = P
        while first.o.get('kind') == 'load' and made_by(w, first) is not None:
            first = fs[made_by(w, first)['sess']]
        # settings
        ref = None
        for s in (P.o.get('state'), P.o.get('loaded')):
            if s is not None:
                ref = {k: s[k] for k in SETTINGS}
                break
        if ref is None and P.o.get('kind') != 'load':
            ref = requested(w, P.sess)
        changed = {NAMES.get(k) for k in ov}
        for k, v in (ref or {}).items():
            if k not in changed and L[k] != v:
                yield f'setting {k} was {v} and is {L[k]} after loading'
        for k, v in ov.items():
            n = NAMES.get(k)
            if n in ('max_jobs', 'hunt_frequency', 'share', 'sf', 'aggressive', 'end_timeout', 'status_frequency', 'overwrite',
                     'detailed', 'split'):
                if L[n] != v:
                    yield f'{k} was overridden with {v} but is {L[n]}'
            elif k == 'backend' and L['proc_backend'] != ('processes' in v):
                yield f'backend was overridden with {v}'
            elif k == 'working_dir' and L['working_dir'] != v:
                yield f'working_dir was overridden with {v} but is {L["working_dir"]}'
        # time used so far
        jump = any(G.by.get('clock') for G in fs[:F.i + 1])
        dt = sum(e - s for s, e in L['dt'])
        if L['n_dt'][0] != L['n_dt'][1] or abs(dt - L['t_used']) > 1e-3:
            yield f'time used is {L["t_used"]}, the saved sessions lasted {dt} ({L["n_dt"]})'
        elif not jump and P.probes:
            t0 = P.probes[0]['t_start']
            used = (P.loaded or {}).get('t_used', 0.0)
            lo, hi = used + c['wall0'] - t0 - .01, used + c['wall1'] - t0 + .01
            if c['started'] and not lo <= L['t_used'] <= hi:
                yield f'time used is {L["t_used"]}, between {lo} and {hi} had passed'
        # restored optimizers continue, ended ones do not
        loads = {e[3]: e for e in F.by.get('opt_load', ())}
        for oid, e in loads.items():
            saved = None
            op = P.opts.get(oid)
            if op is not None:
                sv = [st for s, n, st in op.saves if c['seq0'] <= s <= c['seq1']]
                saved = sv[-1] if sv else None
                if op.type is not None and op.type != e[4] and op.type != e[4].replace('Rec', ''):
                    yield f'optimizer {oid} was a {op.type} and is a {e[4]} after loading'
            if saved is not None and repr(saved) != repr(e[5]):
                yield f'optimizer {oid} was saved as {saved} and restored as {e[5]}'
        if 'started_at' not in o:
            continue
        if o.get('run_exc') is not None:
            txt = o['run_tb']
            if 'Previous results found' in txt:
                if F.loaded['overwrite']:
                    yield 'results were not overwritten as requested'
            elif 'Checkpoint points to log file' in txt:
                if foreign_log(w, F, c) is False:
                    yield f'the log file of this optimization was refused: {txt[-300:]}'
            else:
                yield f'the resumed run raised {txt[-500:]}'
            continue
        if o.get('crashed') or L['converged']:
            continue
        if foreign_log(w, F, c) and F.sess.get('sf', 0) > 2 and F.probes:
            yield 'a log file of another optimization was accepted'
        msg = F.unexpected_crash()
        if msg:
            yield f'the resumed session ended in an error: {msg}'
            continue
        if o.get('stuck'):
            yield 'the resumed session is stuck'
            continue
        for oid, op in F.opts.items():
            if op.begin is None:
                if oid in loads and F.probes and F.threads and not F.excused() and o.get('returned'):
                    yield f'optimizer {oid} was in the checkpoint but did not continue'
                continue
            if op.begins > 1:
                yield f'optimizer {oid} was started {op.begins} times'
            if oid <= L['o'] and not op.restart:
                yield f'optimizer {oid} was started afresh although it belongs to the checkpoint'
            if op.restart:
                if oid not in loads:
                    yield f'optimizer {oid} was restored but is not part of the checkpoint'
                elif repr(op.state) != repr(loads[oid][5]):
                    yield f'optimizer {oid} was restored as {loads[oid][5]} and began as {op.state}'
                elif op.state[0] == 'n_done' and op.starts:
                    due = op.state[1] * F.script(oid).get('step', 1.0)
                    if op.starts[0][2][1] != due:
                        yield f'optimizer {oid} continued with {op.starts[0][2]}, its evaluation {op.state[1]} was due'
        for oid in loads:
            if oid not in F.opts and F.probes and len(F.probes) > 3:
                yield f'optimizer {oid} was in the checkpoint but did not continue'
        new = sorted(op.log_opt for oid, op in F.opts.items() if op.log_opt is not None)
        ids = [oid for oid, op in sorted(F.opts.items(), key=lambda q: q[1].log_opt or 0) if op.log_opt is not None]
        if ids != list(range(L['o'] + 1, L['o'] + 1 + len(ids))):
            yield f'new optimizers are numbered {ids}, {L["o"]} had been started at the checkpoint'
        st = o.get('state')
        if st and F.probes:
            if st['f'] != L['f'] + len(F.iters):
                yield f'{L["f"]} evaluations at the checkpoint, {len(F.iters)} since, but {st["f"]} counted'
            if st['conv'] < L['conv'] or st['hunts'] < L['hunts'] or not set(L['victims']) <= set(st['victims']):
                yield 'counters went back'
            if L['fx'] is not None and not st['fx'] <= L['fx']:
                yield f'best value was {L["fx"]} at the checkpoint and is {st["fx"]} in the end'
            if not jump and F.probes:
                dur = o['return_t'] - w.events[o['started_at']][1]
                if not L['t_used'] - .01 <= st['t_used'] <= L['t_used'] + dur + .01:
                    yield f'time used is {st["t_used"]} after {L["t_used"]} and a session of {dur}'


def opened_log(w, i):
    """ Number of the last session before i which opened the log file in its working directory, None if there is none. """
    fs = facts(w)
    F = fs[i]
    if F.sess.get('fresh_work'):
        return None
    for G in reversed(fs[:i]):
        if G.o.get('skipped') or G.o.get('work') != F.o.get('work'):
            continue
        if G.sess.get('sf', 0) > 2 and (G.probes or G.n('opt_begin')):
            return G.i
        if G.sess.get('sf', 0) > 2 and G.o.get('crashed') and G.n('start'):
            return 'unknown'
        if G.sess.get('fresh_work') or G.o.get('kind') == 'new':
            return None
    return None


def foreign_log(w, F, c):
    last = opened_log(w, F.i)
    return None if last == 'unknown' else last is not None and last != c['sess']


MORE = {'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15}
