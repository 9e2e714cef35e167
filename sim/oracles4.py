"""Property oracles about the schedule of checkpoints, outputs, sharing, ends and starts (see oracles.py)."""
import math
import os
import re
import zlib
from datetime import datetime

from .facts import facts, same
from .oracles3 import made_by

INF = math.inf
EPS = 1e-6


def control_of(F):
    """ The checkpoint control of a session: (time frequency, iteration frequency, at initialisation, at convergence). """
    if F.o.get('kind') == 'load':
        c = (F.loaded or {}).get('ckpt_control')
        if c is None:
            return None
        return float(c['checkpoint_time_frequency']), float(c['checkpoint_iter_frequency']), False, \
            c['checkpoint_at_conv'] == 'True'
    c = F.sess.get('ckpt')
    if not c:
        return None
    tf, itf = c.get('checkpoint_time_frequency'), c.get('checkpoint_iter_frequency')
    return INF if tf is None else tf, INF if itf is None else itf, bool(c.get('checkpoint_at_init')), \
        bool(c.get('checkpoint_at_conv'))


def ended_regularly(F):
    """ The loop of the manager was left because the run was over and nothing disturbed what follows. """
    return bool(F.o.get('returned') and F.probes and F.reason is not None and
                F.reason not in ('GloMPO Crash', 'User Interrupt') and not F.by.get('interrupt_sent'))


def refused(F):
    """ A resume which was not allowed to start (decided by C15 and C18). """
    return isinstance(F.o.get('run_exc'), (KeyError, FileExistsError)) and not F.probes


# ---------------------------------------------------------------------------------------------------- C16

CODES = {'%(date)': '%Y%m%d', '%(year)': '%Y', '%(yr)': '%y', '%(month)': '%m', '%(day)': '%d', '%(time)': '%H%M%S',
         '%(hour)': '%H', '%(min)': '%M', '%(sec)': '%S'}


def expected_names(c):
    """ The names the checkpoint may carry, None if that cannot be said. """
    a, b = c['wall0'], c.get('wall1', c['wall0'])
    if not 0 <= b - a <= 120:
        return None
    out = set()
    pat, digits = '', {'%(date)': 8, '%(year)': 4, '%(time)': 6}
    for part in re.split(r'(%\([a-z]+\))', c['format']):
        if part in CODES:
            pat += '[0-9]{%d}' % digits.get(part, 2)
        elif part == '%(count)':
            pat += '([0-9]{3,})'
        else:
            pat += re.escape(part)
    nums = []
    for e in c['entries']:
        m = re.fullmatch(pat, e[:-7] if e.endswith('.tar.gz') else e)
        if m and m.groups():
            nums.append(int(m.group(1)))
    nxt = max(nums, default=-1) + 1
    for k in range(int(math.floor(a)), int(math.floor(b)) + 1):
        name = c['format']
        for key, f in CODES.items():
            name = name.replace(key, datetime.fromtimestamp(k).strftime(f))
        out.add(name.replace('%(count)', f'{nxt:03}'))
    return out


def c16(w):
    for F in facts(w):
        o = F.o
        if o.get('skipped'):
            continue
        # names
        for c in F.ckpts:
            if c['name'] is None:
                continue
            ex = expected_names(c)
            if ex is not None and c['name'] not in ex:
                yield f'checkpoint is called {c["name"]} instead of {sorted(ex)[0]}'
            if '%(count)' in c['format'] and f'{c["name"]}.tar.gz' in c['entries']:
                yield f'numbered checkpoint {c["name"]} overwrites an existing one'
            if c['seq1'] is not None and not c['exc'] and not c['there'] and not F.by.get('fs_fault') and \
                    not any(c['seq0'] <= s <= c['seq1'] and 'Checkpointing failed' in m for s, _, _, m in w.warnings):
                yield f'no file {c["name"]}.tar.gz was made'
        if o.get('setup_exc') is not None:
            continue
        tf, itf, at_init, at_conv = control_of(F) or (INF, INF, False, False)
        init = [c for c in F.ckpts if not c['started']]
        if len(init) != int(at_init):
            yield f'{len(init)} checkpoints made at initialisation instead of {int(at_init)}'
        msg = F.unexpected_crash()
        if msg and not refused(F):
            yield f'session {F.i} ended in an error: {msg}'
            continue
        if 'started_at' not in o or not F.probes:
            continue
        run = [c for c in F.ckpts if c['started']]
        taken = [e[0] for e in F.by.get('removed', ()) if e[3].split('/')[-1] == 'CHKPT' and '/' in e[3]]
        regular = ended_regularly(F) and not o.get('stuck') and not o.get('crashed')
        jumps = [e[0] for e in F.by.get('clock', ())]
        end_seq = F.return_seq or INF
        bounds = [F.start_seq] + [p['seq'] for p in F.probes] + [end_seq]
        t0 = F.probes[0]['t_start']
        states = [(t0, t0, F.base('last_iter_ckpt', 0) if F.loaded else 0)]
        for k in range(len(bounds) - 1):
            a, b = bounds[k], bounds[k + 1]
            last = k == len(bounds) - 2
            cks = [c for c in run if a <= c['seq0'] < b]
            con = [s for s in taken if a <= s < b]
            complete = not last or regular
            manual = [c for c in cks if con and c['seq0'] > con[0]]
            other = [c for c in cks if c not in manual]
            if len(con) > 1 and not last:
                yield f'{len(con)} requests accepted in one step'
            if len(manual) != len(con) and complete:
                yield f'{len(con)} checkpoint requests accepted but {len(manual)} checkpoints made'
            if k == 0:
                if other:
                    yield f'checkpoint {other[0]["name"]} made before anything happened'
                continue
            p = F.probes[k - 1]
            if last and regular:
                want = int(at_conv)
                conv = other[len(other) - want:] if want else []
                if len(other) < want:
                    yield 'no checkpoint made at the end of the run'
                    continue
                other = other[:len(other) - want]
                if conv and not conv[0]['converged']:
                    yield f'checkpoint {conv[0]["name"]} at the end of the run was made before the end'
            if last and not regular and at_conv and other and other[-1]['converged']:
                if len(other) > 2:
                    yield f'{len(other)} checkpoints made at the end of the run'
                continue        # one at the end or a scheduled one in the last step
            if len(other) > 1:
                yield f'{len(other)} checkpoints made where at most one is scheduled'
                continue
            made = other[0] if other else None
            nw, nt = (made['wall0'], made['t0']) if made else (F.probes[k]['wall'], F.probes[k]['t']) if not last else \
                (p['wall'] + o.get('return_t', p['t']) - p['t'], o.get('return_t', p['t']))
            lo, hi = p['wall'], nw
            if any(a <= j < b for j in jumps):
                lo, hi = min(lo, nw - (nt - p['t'])), max(nw, lo + (nt - p['t']))
                lo, hi = lo - 1e5, hi + 1e5
            new = []
            for t_lo, t_hi, li in states:
                surely = lo - t_hi > tf + EPS
                maybe = hi - t_lo > tf - EPS
                it = p['f'] - li > itf
                if made:
                    if maybe:
                        new.append((lo, hi, li))
                    if it and not surely:
                        new.append((t_lo, t_hi, p['f']))
                elif not (surely or it) or not complete:
                    new.append((t_lo, t_hi, li))
            if not new:
                if made:
                    yield f'checkpoint {made["name"]} made after {p["f"]} evaluations, nothing asked for it'
                else:
                    yield f'no scheduled checkpoint made after {p["f"]} evaluations although it was due'
                break
            states = sorted(set(new))[:8]
        # requests are accepted
        gone = [e[0] for e in F.by.get('file_gone', ()) if e[3] == 'CHKPT']
        puts = [e[0] for e in F.by.get('file_put', ()) if e[3] == 'CHKPT']
        for s in puts:
            ps = [p['seq'] for p in F.probes if p['seq'] > max(s, F.start_seq)][:2]
            if len(ps) == 2 and not any(s < x < ps[1] for x in taken + gone):
                yield 'a CHKPT file was not accepted within a manager cycle'
        # the control of the run is what was configured
        st = o.get('state')
        if st is not None and (st['ckpt_control'] is None) != (control_of(F) is None) and regular:
            yield f'the run had checkpoint control {control_of(F)}, it ended with {st["ckpt_control"]}'


# ---------------------------------------------------------------------------------------------------- C17

def short(m):
    return m[:160] + ' ... ' + m[-300:] if len(m) > 460 else m


def squeeze(text):
    return re.sub(r'[\s|]+', '', str(text))


def chain(w, i, until=INF):
    """ What the log knows about every optimizer: {oid: {type, msgs, cond, iters: [(call, x, fx)]}}, number of iterations. """
    F = facts(w)[i]
    out, n = {}, 0
    if F.o.get('kind') == 'load':
        c = made_by(w, F)
        if c is None:
            return None, None
        out, n = chain(w, c['sess'], c['seq1'])
        if out is None:
            return None, None
    for oid, op in F.opts.items():
        if op.log_opt is not None and op.log_opt < until:
            out[oid] = {'type': op.log_type, 'msgs': [], 'cond': None, 'iters': [], 'sess': i, 'seq': op.log_opt}
        if oid in out:
            d = out[oid]
            d['msgs'] = d['msgs'] + [m for q, m in op.msgs if q < until]
            d['cond'] = ([v for q, v in op.end_conds if q < until] or [d['cond']])[-1]
    for q, oid, x, fx in F.iters:
        if q < until:
            n += 1
            if oid in out:
                out[oid]['iters'] = out[oid]['iters'] + [(n, x, fx)]
    return out, n


def c17(w):
    for F in facts(w):
        o = F.o
        if o.get('dump') is not None:
            yield from yaml_agrees(o['dump'], o['dump_state'], o['dump_state'], 'Manual Save State')
        if F.unsettled() or not F.probes or F.by.get('fs_fault') or o.get('run_exc') is not None:
            continue
        sf = F.sess.get('sf', 0)
        st, r = o['state'], o['result']
        for _, i, _, msg in w.warnings:
            if i == F.i and ('Saving summary files failed' in msg or 'Closing the log failed' in msg):
                yield f'output could not be written: {msg[-400:]}'
        if sf < 1:
            new = set(o['tree']) - set(o['pre_tree'])
            made = [n for n in new if not n.startswith('dump/') and ('glompo_manager_log' in n or n.endswith('.png'))]
            if made:
                yield f'{made} written although no output was asked for'
            continue
        y = o.get('yaml')
        if y is None:
            yield f'summary file missing or unreadable: {o.get("yaml_error")}'
        else:
            reason = F.reason
            if F.reason == 'GloMPO Crash':
                reason = None
            elif F.reason == 'User Interrupt':
                reason = 'Process Crash: User Interrupt'
            yield from yaml_agrees(y, st, {'fx': r.fx, 'x': r.x, 'origin': r.origin}, reason)
            if F.reason == 'GloMPO Crash' and not str(y['Solution']['exit cond.']).startswith('Process Crash: '):
                yield f'the summary gives {y["Solution"]["exit cond."]!r} as exit condition after an error'
        name = F.o['work'].split('/')[-1]
        plots = [n for n in o['tree'] if n.startswith(name + '/trajectories') and n.endswith('.png')]
        if (len(plots) < 1) != (sf < 2) and not (sf < 2 and F.i):
            yield f'trajectory plots {plots} with summary_files {sf}'
        if sf < 3:
            continue
        h = o.get('h5')
        if h is None:
            yield f'log file missing or unreadable: {o.get("h5_error")}'
            continue
        yield from h5_agrees(w, F, h, st, r)


def yaml_agrees(y, st, sol, reason):
    cn = y['Counters']
    got = (cn['Function Evaluations'], cn['Hunts Started'], cn['Optimizers']['Started'], cn['Optimizers']['Killed'],
           cn['Optimizers']['Converged'])
    want = (st['f'], st['hunts'], st['o'], len(st['victims']), st['conv'])
    if got != want:
        yield f'counters in the summary are {got}, in the run {want}'
    se = y['Settings']
    if se['Max Jobs'] != st['max_jobs']:
        yield f'summary has max jobs {se["Max Jobs"]}, the run {st["max_jobs"]}'
    if squeeze(se['Convergence Checker']) != squeeze(nested(st['checker'])):
        yield f'summary has exit condition {se["Convergence Checker"]!r}, the run {st["checker"]!r}'
    if squeeze(se['Hunt Conditions']) != squeeze(nested(st['hunter']) if st['hunter'] != 'None' else None):
        yield f'summary has hunting condition {se["Hunt Conditions"]!r}, the run {st["hunter"]!r}'
    s = y['Solution']
    if not (same_num(s['fx'], sol['fx']) and list(map(float, s['x'] or [])) == list(map(float, sol['x'] or []))
            and (s['origin'] or {}) == (sol['origin'] or {})):
        yield f'solution in the summary is {s}, in the run {sol["fx"]}, {sol["x"]}, {sol["origin"]}'
    if reason is not None and squeeze(s['exit cond.']) != squeeze(nested(reason)):
        yield f'exit condition in the summary is {s["exit cond."]!r}, in the run {reason!r}'
    if ('Checkpointing' in y) != (st['ckpt_control'] is not None):
        yield 'summary and run disagree on checkpointing'
    elif 'Checkpointing' in y:
        cs = sorted(str(p).split('/')[-1] for p in y['Checkpointing']['Checkpoints'])
        if cs != st['ckpt_history']:
            yield f'summary lists checkpoints {cs}, the run made {st["ckpt_history"]}'
    ps = y['Assignment']['Time']['Optimization Periods']
    pr = [(datetime.fromisoformat(str(p['Start'])).timestamp(), datetime.fromisoformat(str(p['End'])).timestamp()) for p in ps]
    if len(pr) != len(st['dt']) or any(abs(a - b) > 1e-3 for p, q in zip(pr, st['dt']) for a, b in zip(p, q)):
        yield f'summary has periods {pr}, the run {st["dt"]}'
    tot = seconds(y['Assignment']['Time']['Total'])
    want = sum(b - a for a, b in st['dt'])
    if tot is not None and abs(tot - want) > 1e-2:
        yield f'total time in the summary is {tot}, of the run {want}'
    ses = seconds(y['Assignment']['Time']['Session'])
    if ses is not None and st['t_start'] and st['t_end'] and abs(ses - (st['t_end'] - st['t_start'])) > 1e-2:
        yield f'session time in the summary is {ses}, of the run {st["t_end"] - st["t_start"]}'


def nested(text):
    from .session import G
    return G['nested'](str(text))


def same_num(a, b):
    return (None if a is None else float(a)) == (None if b is None else float(b))


def seconds(text):
    m = re.fullmatch(r"(?:(\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)", str(text))
    return None if m is None else int(m[1] or 0) * 86400 + int(m[2]) * 3600 + int(m[3]) * 60 + float(m[4])


def file_begin(w, i):
    """ Session in which the log file continued by session i was begun, and the number of evaluations made before. """
    F = facts(w)[i]
    name = F.o['work'].split('/')[-1]
    if F.o.get('kind') != 'load':
        return i, 0
    if f'{name}/glompo_log.h5' not in F.o['pre_tree'] or F.sess.get('fresh_work'):
        _, n = chain(w, i)
        return i, None if n is None else n - len(F.iters)
    c = made_by(w, F)
    return (None, None) if c is None else file_begin(w, c['sess'])


def file_sessions(w, i, first):
    """ The sessions from first to i which are continuations of each other. """
    out = [i]
    while i != first:
        i = made_by(w, facts(w)[i])['sess']
        out.append(i)
    return out


def h5_agrees(w, F, h, st, r):
    o = F.o
    truth, n = chain(w, F.i)
    first, before = file_begin(w, F.i)
    if truth is None or first is None:
        return
    recent = set()      # of the sessions which are in the file
    for j in file_sessions(w, F.i, first):
        recent |= set(facts(w)[j].opts)
    # what happened earlier is in another file
    truth = {oid: {**d, 'iters': [it for it in d['iters'] if it[0] > before]} for oid, d in truth.items()
             if oid in recent or oid in h['opts']}
    started = {oid for oid, d in truth.items() if d['sess'] >= first}
    have = set(h['opts'])
    if started - have or have - set(truth):
        yield f'log file has optimizers {sorted(have)}, started were {sorted(truth)}'
        return
    wall = F.probes[0]['wall'] - F.probes[0]['t']
    jumps = any(e[2] == 'clock' for e in w.events)
    ticks = [(F.start_seq, F.w.events[F.start_seq][1] if F.start_seq < len(F.w.events) else 0)] + \
        [(p['seq'], p['t']) for p in F.probes]
    from .workload import extras_of
    n_ex = w.sc['task'].get('n_extra', 0) if F.sess.get('detailed') else 0
    for oid in sorted(have):
        d, g = truth[oid], h['opts'][oid]
        at = g['attrs']
        op = F.opts.get(oid)
        if at.get('opt_id') != oid or at.get('opt_type') != d['type']:
            yield f'log file has optimizer {oid} as {at.get("opt_id")}, {at.get("opt_type")}; it is {d["type"]}'
        if op is not None and op.type and op.type != d['type']:
            yield f'optimizer {oid} of type {op.type} is entered in the log as {d["type"]}'
        if (None if at.get('end_cond') is None else str(at['end_cond'])) != d['cond']:
            yield f'end condition of optimizer {oid} in the log file is {at.get("end_cond")!r}, it was {d["cond"]!r}'
        if (at.get('t_stop') is None) != (d['cond'] is None):
            yield f'optimizer {oid}: end condition {d["cond"]!r} and stop time {at.get("t_stop")} in the log file'
        if [short(m) for m in g['messages'] or []] != d['msgs']:
            yield f'messages of optimizer {oid} in the log file are {g["messages"]}, received were {d["msgs"]}'
        if not jumps and at.get('t_start') is not None and d['sess'] == F.i:
            ts = at['t_start'].timestamp() - wall
            lo = max([t for q, t in ticks if q <= d['seq']], default=-INF)
            hi = w.events[d['seq']][1]
            if not lo - .01 <= ts <= hi + .01:
                yield f'start time of optimizer {oid} in the log file is {ts}, it was started between {lo} and {hi}'
            stops = [q for q, k, _ in op.meta if k == 't_stop'] if op else []
            if stops and at.get('t_stop') is not None:
                te = at['t_stop'].timestamp() - wall
                lo = max([t for q, t in ticks if q <= stops[-1]], default=-INF)
                hi = w.events[stops[-1]][1]
                if not lo - .01 <= te <= hi + .01:
                    yield f'stop time of optimizer {oid} in the log file is {te}, it ended between {lo} and {hi}'
        rows = [(c, tuple(x), fx) for c, x, fx, _ in g['rows']]
        if len(rows) != len(d['iters']) or any(a[0] != b[0] or a[1] != b[1] or not same(a[2], b[2])
                                               for a, b in zip(rows, d['iters'])):
            bad = next((p for p in zip(rows, d['iters']) if repr(p[0]) != repr(p[1])), (len(rows), len(d['iters'])))
            yield f'evaluation table of optimizer {oid} differs from what was accepted: {bad}'
        for c, x, fx, ex in g['rows']:
            if tuple(ex) != extras_of(tuple(x), n_ex) and (c, tuple(x), fx) in d['iters'][-len(op.iters) if op else 0:]:
                yield f'extra columns of optimizer {oid} are {ex} instead of {extras_of(tuple(x), n_ex)}'
                break
    a = h['attrs']
    want = {'n_evals': st['f'], 'n_hunts': st['hunts'], 'n_opts_started': st['o'], 'n_opts_killed': len(st['victims']),
            'n_opts_conv': st['conv'], 'f_counter': st['f'], 'opts_started': st['o']}
    for k, v in want.items():
        if a.get(k) != v and not (k == 'opts_started' and (F.by.get('interrupt_sent') or any(e[3] == 'optimizer' for e in F.by.get('user_error', ())))):
            yield f'{k} is {a.get(k)} in the log file, {v} in the run'
    if 'GloMPO Crash' != F.reason and squeeze(a.get('exit_reason')) != squeeze(
            F.reason if F.reason != 'User Interrupt' else 'Process Crash: User Interrupt'):
        yield f'exit reason is {a.get("exit_reason")!r} in the log file, {F.reason!r} in the run'
    if [tuple(map(float, b)) for b in a.get('bounds') or []] != [tuple(map(float, b)) for b in st['bounds']]:
        yield f'bounds are {a.get("bounds")} in the log file, {st["bounds"]} in the run'
    for k in ('task', 'glompo_version', 'working_dir', 'username', 'hostname', 'total_time', 'checksum', 'best_iter',
              'best_iters', 'max_eval'):
        if k not in a:
            yield f'{k} is missing in the log file'
    # best of each optimizer
    full, _ = chain(w, F.i)
    for oid, d in full.items():
        fin = [(fx, -c, x) for c, x, fx in d['iters'] if fx < INF]
        b = (a.get('best_iters') or {}).get(oid)
        if b is None:
            yield f'best evaluation of optimizer {oid} is missing in the log file'
        elif fin:
            fx = min(fin)[0]
            first = next(it for it in d['iters'] if it[2] == fx)
            if b['fx'] != fx or b['call_id'] != first[0] or tuple(map(float, b['x'])) != first[1]:
                yield f'best evaluation of optimizer {oid} is {b} in the log file, it was {first}'
            g = h['opts'].get(oid)
            if g and g['rows'] and (g['attrs'].get('best_iter') or {}).get('call_id') != first[0]:
                yield f'best evaluation of optimizer {oid} is {g["attrs"].get("best_iter")} in its record, it was {first}'
    mx = max([fx for d in full.values() for _, _, fx in d['iters'] if -INF < fx < INF], default=-INF)
    if a.get('max_eval') != mx:
        yield f'largest evaluation is {a.get("max_eval")} in the log file, it was {mx}'


# ---------------------------------------------------------------------------------------------------- C18

STALE = (3, zlib.crc32(b'old'))     # what gen.py puts into files of earlier runs
OLD = re.compile(r'glompo_manager_log\.yml|trajectories[^/]*\.png|opt[^/]*_parms\.png')


def may_overwrite(w, F):
    if F.o.get('kind') == 'load':
        if 'overwrite_existing' in (F.sess.get('overrides') or {}):
            return F.sess['overrides']['overwrite_existing']
        c = made_by(w, F)
        return None if c is None else may_overwrite(w, facts(w)[c['sess']])
    return bool(F.sess.get('overwrite'))


def c18(w):
    for F in facts(w):
        o = F.o
        before = o.get('start_tree')
        if before is None or o.get('stuck') or o.get('crashed'):
            continue
        name, allowed = os.path.relpath(F.o['work'], str(w.scratch)), may_overwrite(w, F)
        after = o['tree']
        results = {n for n in before if n.startswith(name + '/') and
                   (OLD.fullmatch(n[len(name) + 1:]) or n == name + '/glompo_log.h5' and o.get('kind') != 'load')}
        exc = o.get('run_exc')
        stopped = any(i == F.i and 'Aborting start' in m for _, i, _, m in w.warnings)
        gone = [(e[0], e[3]) for e in F.by.get('removed', ()) if e[0] > F.start_seq]
        streams = name + '/glompo_optimizer_printstreams/'
        refused = isinstance(exc, FileExistsError)
        if allowed is None:
            continue
        if stopped or refused:
            if refused and (allowed or not results):
                yield f'run refused because of old results, overwrite_existing {allowed}, results {sorted(results)}'
            if gone or after != before:
                diff = sorted(k for k in {*before, *after} if before.get(k) != after.get(k))
                yield f'the run did not start, but changed {diff}, removed {gone}'
            if F.opts:
                yield 'the run did not start, but optimizers did'
            continue
        if results and not allowed:
            yield f'run started over the results {sorted(results)} without permission: {exc!r}'
            continue
        if F.by.get('fs_fault'):
            continue
        first = min([op.begin for op in F.opts.values() if op.begin is not None], default=INF)
        names = [n for q, n in gone if q < first]
        for n in results | {n for n in before if results and n.startswith(streams) and before[n] == STALE}:
            if (n not in names or n.startswith(streams)) and after.get(n) == before[n]:
                yield f'old result {n} still there after the start of the run'
        taken = re.compile(re.escape(name) + r'/(STOP_\d+|CHKPT)')
        for n in before:
            if n in results or results and n.startswith(streams) or taken.fullmatch(n):
                continue
            if n not in after or n in [m for _, m in gone]:
                yield f'{n} removed by the run'
            elif after[n] != before[n] and n != name + '/glompo_log.h5' and not n.startswith('ckpts') and not (
                    n.startswith(streams) and F.sess.get('split')):
                yield f'{n} changed by the run'
        for _, n in gone:
            if n in before and n not in results and not (results and n.startswith(streams)) and not taken.fullmatch(n):
                yield f'{n} removed by the run'
        log = name + '/glompo_log.h5'
        if o.get('kind') == 'load' and log in before and (exc is not None and not F.opts) and after.get(log) != before[log]:
            yield f'log file changed by a start which was refused: {exc!r}'


# ---------------------------------------------------------------------------------------------------- C19

def c19(w):
    for F in facts(w):
        bad = F.unexpected_crash()
        if bad:
            yield f'run ended in an error: {bad}'
        pipes = {getattr(op, 'pipe', None): oid for oid, op in F.opts.items()}
        sends = [(e[0], e[3], e[4]) for e in F.by.get('send', ()) if isinstance(e[4], tuple) and e[4] and e[4][0] == 4
                 and e[3].endswith('m')]
        got = F.n('inject')
        if not F.sess.get('share'):
            if sends or got:
                yield f'{len(sends)} solutions were shared although sharing is off'
            continue
        best = F.base('fx', None)
        best = INF if best is None else best
        marks = []                  # (seq, owner, x, fx, improvement)
        for q, oid, x, fx in F.iters:
            up = fx < best
            if up:
                best = fx
            marks.append((q, oid, x, fx, up))
        told = {}
        for e in sorted(list(F.by.get('inject', ())) + list(F.by.get('incumbent', ()))):
            if e[2] == 'inject':
                told[e[3]] = (tuple(e[4]), e[5])
            elif e[4] != told.get(e[3]):
                yield f'optimizer {e[3]} was given {told.get(e[3])} but holds {e[4]}'
        # an optimizer can be told until the manager does the next thing
        stops = sorted([q for q, *_ in F.iters] + [p['seq'] for p in F.probes] + [e[0] for e in F.by.get('hunt_eval', ())] +
                       ([F.return_seq] if F.return_seq is not None else []))
        sent = {}
        owner_of = {}
        for q, pipe, msg in sends:
            if pipe[:-1] + 'c' not in pipes:
                continue            # told before it began
            sent.setdefault(pipes[pipe[:-1] + 'c'], []).append((q, msg[1], msg[2]))
        if None in pipes and len(pipes) == 1 and F.opts:
            sent = None
        for q, oid, x, fx, up in marks:
            end = next((s for s in stops if s > q), None)
            if end is None or sent is None:
                break
            for v, op in F.opts.items():
                mine = [m for m in sent.get(v, ()) if q < m[0] < end]
                if not up or v == oid:
                    if mine:
                        yield (f'optimizer {v} was sent {mine} ' + ('although it found it itself' if up else
                               f'after evaluation {fx} which is no improvement'))
                    continue
                if any(m[1] != tuple(x) or m[2] != fx for m in mine) or len(mine) > 1:
                    yield f'optimizer {v} was sent {mine} when optimizer {oid} found {fx} at {x}'
                gone = F.exited(v)
                killed = op.killed
                if not mine and op.begin is not None and op.begin < q and (gone is None or gone > end) and \
                        (killed is None or killed > end) and op.log_opt is not None:
                    yield f'optimizer {v} was not told that optimizer {oid} found {fx} at {x}'
        for v, op in F.opts.items():
            vals = [fx for _, _, fx in op.injects]
            if any(not b < a for a, b in zip(vals, vals[1:])) and not F.o.get('crashed'):
                yield f'optimizer {v} was given {vals}'
            for q, x, fx in op.injects:
                if not any(p < q and y == tuple(x) and fy == fx and up and o != v for p, o, y, fy, up in marks):
                    yield f'optimizer {v} was given {fx} at {x}, which no other optimizer found'
            if sent is None or op.restart:
                continue
            due = sent.get(v, [])
            have = [(x, fx) for _, x, fx in op.injects]
            want = [(x, fx) for _, x, fx in due]
            if have != want[:len(have)]:
                yield f'optimizer {v} was sent {want} and was given {have}'
            # it looks at its messages every so many evaluations
            sc = w.script(v)
            if op.type in ('AlphaOpt', 'BetaOpt', 'GammaOpt'):
                need = sc.get('check_every', 1) + 2
                for k, (q, x, fx) in enumerate(due):
                    if sum(1 for s in op.starts if s[0] > q) > need and k >= len(have):
                        yield f'optimizer {v} did not get {fx} which it was sent'
                        break


# ---------------------------------------------------------------------------------------------------- C20

OWN = re.compile(r'<(\d+):(\d+)>e?')
OTHERS = re.compile(r'\[(?:m|u\d+):\d+\]')


def c20(w):
    for F in facts(w):
        o = F.o
        if o.get('skipped') or o.get('crashed') or o.get('setup_exc') is not None or not F.probes:
            continue
        bad = F.unexpected_crash()
        if bad:
            yield f'run ended in an error: {bad}'
        split = F.sess.get('split')
        base, end = o['seq0'], o.get('end_seq', INF)
        con = {'out': '', 'err': ''}
        for q, which, label, msg in w.stdout_log:
            if base <= q <= end:
                con[which] += msg
        for which in ('out', 'err'):
            # what others print
            want = [e[4] for e in F.by.get('print_other', ()) if e[3] == which]
            have = [m[0] for m in OTHERS.finditer(con[which])]
            if sorted(want) != sorted(have):
                yield f'other threads printed {want} on std{which}, there came {have}'
            mine = {}
            for e in F.by.get('print', ()):
                if e[4] == which:
                    mine.setdefault(e[3], []).append(e[5])
            have = [m[0] for m in OWN.finditer(con[which])]
            if not split:
                want = [m for v in mine.values() for m in v]
                if sorted(have) != sorted(want):
                    yield f'optimizers printed {sorted(want)} on std{which}, there came {sorted(have)}'
                continue
            if have:
                yield f'optimizer output {have} appeared on std{which} of the run'
            files = o.get('streams') or {}
            for n, text in files.items():
                m = re.fullmatch(r'printstream_(\d{4,})\.(out|err)', n)
                if m and m[2] == which:
                    wrong = [t[0] for t in OWN.finditer(text) if int(t[1]) != int(m[1])] + [t[0] for t in OTHERS.finditer(text)]
                    if wrong:
                        yield f'{wrong} in {n}'
                    if int(m[1]) not in F.opts and not F.i:
                        yield f'{n} belongs to nobody'
            for v, op in F.opts.items():
                text = files.get(f'printstream_{v:04}.{which}')
                want = mine.get(v, [])
                if op.begin is None:
                    continue
                if text is None:
                    yield f'optimizer {v} has no file for std{which}'
                    continue
                have = [t[0] for t in OWN.finditer(text)]
                gone = F.exited(v)
                whole = op.killed is None and not op.terms and gone is not None and op.how is not None
                if have != want[:len(have)] or whole and len(have) < len(want):
                    yield f'optimizer {v} printed {want} on std{which}, its file has {have}'
        logs = o.get('logs')
        if F.sess.get('split_logs'):
            for v, op in F.opts.items():
                want = [e[4] for e in F.by.get('logged', ()) if e[3] == v]
                text = (logs or {}).get(f'optimizer_{v}.log', '')
                have = re.findall(r'log-\d+-\d+', text)
                if F.i and op.restart:
                    have = have[-len(want):] if want else have[:0]
                if have != want:
                    yield f'optimizer {v} logged {want}, its file has {have}'
            got = sorted(m for q, n, lv, m in w.split_records if base <= q <= end and m.startswith('log-'))
            want = sorted(e[4] for e in F.by.get('logged', ())) if F.sess['split_logs'] == 'propagate' else []
            if got != want:
                yield f'records passed on are {got}, expected were {want}'
            bads = [m for q, n, lv, m in w.log_records if base <= q <= end and lv == 'BAD']
            if bads:
                yield f'log records which cannot be formatted: {bads[:2]}'


MORE4 = {'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20}
