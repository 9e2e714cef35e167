"""Property oracles: each takes the recorded World and yields messages describing violations.

Oracles look only at what users can observe (return values, public attributes, files) and at what truly happened
(recorded by the harness); they never look at how the code under test is written."""
import math

from .facts import facts, same


def fin(x):
    return isinstance(x, (int, float)) and not math.isnan(x) and not math.isinf(x)


# ---------------------------------------------------------------------------------------------------- C01

def c01(w):
    for F in facts(w):
        o = F.o
        if o.get('stuck'):
            yield f"session {F.i} never ends: {o['stuck'][:400]}"
            continue
        if o.get('crashed') or not o.get('returned'):
            continue
        for label, on in o.get('leftover', ()):
            if not label.startswith('Opt'):
                continue
            oid = int(label[3:])
            if F.left_running():
                continue
            if oid in F.opts and on not in ('sleeping', 'scripted hang'):
                yield f'optimizer {oid} stays blocked on {on!r} after the run has returned'


# ---------------------------------------------------------------------------------------------------- C02

def c02(w):
    for F in facts(w):
        msg = F.unexpected_crash()
        if msg:
            yield f'session {F.i} ended in an error: {msg}'
        if F.unsettled() or F.reason == 'GloMPO Crash':
            continue
        # failures are recorded
        for oid, op in F.opts.items():
            gone = F.exited(oid)
            if gone is None or not op.fails or op.hang is not None:
                continue
            later = [p for p in F.probes if p['seq'] > gone]
            if len(later) < 4 or op.cond and 'GloMPO Termination' in op.cond:
                continue
            if not op.end_conds:
                yield f'optimizer {oid} failed ({op.fails[0][1]}) and was gone for {len(later)} manager cycles, ' \
                      f'but no end was recorded'
            elif op.how == 'RuntimeError' and not op.killed and not any('scripted failure' in m for _, m in op.msgs) \
                    and F.script(oid).get('end') != 'dieafter':
                yield f'optimizer {oid} raised, but its message is not in the log: {op.msgs}'


# ---------------------------------------------------------------------------------------------------- C03

def c03(w):
    for F in facts(w):
        o = F.o
        if F.unsettled() or not F.probes:
            continue
        T = F.sess.get('end_timeout') or (None if F.threads else 10)
        error_end = F.reason in ('GloMPO Crash', 'User Interrupt')
        ret, ret_t = F.return_seq, o['return_t']
        for oid, op in F.opts.items():
            if op.begin is None and op.proc_start is None:
                continue
            gone = F.exited(oid)
            coop = F.cooperative(oid)
            if not F.threads:
                if (gone is None or gone > ret) and not any(s < ret for s, _, _ in op.terms):
                    yield f'process of optimizer {oid} is neither dead nor was it terminated when the run returned'
                if gone is None:
                    yield f'process of optimizer {oid} still runs long after the run returned'
                if coop and not error_end and op.terms and op.terms[0][0] > F.last_probe \
                        and not ("Forced" in (op.cond or "")) and op.killed is None and op.hang is None and not F.sess.get('aggressive') \
                        and not F.script(oid).get('save_fail') and F.slowest(oid) * w_speed(w) < T:
                    yield f'cooperative optimizer {oid} was terminated after the run instead of stopping by itself'
            elif coop:
                if gone is None and not F.left_running():
                    yield f'optimizer thread {oid} still runs long after the run returned'
                elif (gone or 10 ** 9) > ret and not error_end and (T is None or F.slowest(oid) * w_speed(w) < T):
                    yield f'optimizer thread {oid} still ran when the run returned (end_timeout {T})'
        sf = F.sess.get('sf', 0)
        if F.by.get('fs_fault'):
            continue
        if sf >= 1 and 'yaml' not in o:
            yield f"summary file missing or unreadable: {o.get('yaml_error')}"
        if sf >= 3 and 'h5' not in o:
            yield f"log file missing or unreadable: {o.get('h5_error')}"
        if o.get('open_files'):
            yield f"files left open: {o['open_files']}"


def w_speed(w):
    return 1.5


# ---------------------------------------------------------------------------------------------------- C04

def c04(w):
    for F in facts(w):
        o = F.o
        if o.get('setup_exc') is not None or o.get('skipped'):
            continue
        mj = F.sess['max_jobs']
        # numbering
        expect = F.base('o') + 1
        for e in F.by.get('log_opt', ()):
            if e[3] != expect:
                yield f'optimizer number {e[3]} started where {expect} is next'
                break
            expect += 1
        for oid, op in F.opts.items():
            if getattr(op, 'begins', 0) > 1:
                yield f'optimizer {oid} was started {op.begins} times'
            if op.begin is not None and not op.restart and op.log_opt is None:
                yield f'optimizer {oid} runs as a new one although it was never entered in the log'
            if op.restart and oid > F.base('o'):
                yield f'optimizer {oid} restored but unknown to the checkpoint'
        # limit
        deltas = []
        for oid, op in F.opts.items():
            if op.begin is None:
                continue
            if F.threads:
                a, b = op.begin, op.end
            else:
                a, b = op.proc_start[0] if op.proc_start else op.begin, op.proc_exit[0] if op.proc_exit else None
            deltas.append((a, op.workers, oid))
            if b is not None:
                deltas.append((b, -op.workers, oid))
        tot, worst = 0, 0
        for s, d, oid in sorted(deltas):
            tot += d
            worst = max(worst, tot)
        if worst > mj:
            yield f'{worst} workers alive at one time, {mj} allowed'
        # spawning stopped
        stop = next((s for s, _, _, r in F.spawn_asked if not r), None)
        if stop is not None and any(e[0] > stop for e in F.by.get('log_opt', ())):
            yield 'an optimizer was started after spawning had been stopped'
        if F.loaded and F.loaded['spawning'] is False and F.n('log_opt'):
            yield 'an optimizer was started although spawning was off in the checkpoint'
        # refilling
        if F.unsettled() or F.reason == 'GloMPO Crash' or F.user_error():
            continue
        need = max(wk for _, wk in F.entries())
        workers = {oid: op.workers for oid, op in F.opts.items() if op.workers}
        exits = sorted((F.exited(oid) or 10 ** 9, oid) for oid in F.opts)
        ckw = [(c['seq0'], c['seq1'] or 10 ** 9) for c in F.ckpts]
        for p, q in zip(F.probes, F.probes[1:]):
            if not q['spawning'] or (stop is not None and stop < q['seq']):
                break
            alive = [oid for oid, op in F.opts.items()
                     if (op.log_opt is not None and op.log_opt < q['seq'] or op.restart)
                     and (F.exited(oid) or 10 ** 9) >= p['seq']]
            if any((op.log_opt or 0) < q['seq'] and op.begin is None for op in F.opts.values()
                   if op.log_opt is not None):
                continue        # did not come to run: number of workers unknown
            if any(oid not in workers for oid in alive):
                continue
            free = mj - sum(workers[oid] for oid in alive)
            if free >= need:
                yield f'{free} slots stay empty through a manager cycle although optimizers of {need} workers may be started'
                break


# ---------------------------------------------------------------------------------------------------- C05

def best_of(iters, base=None):
    best = base
    for s, oid, x, fx in iters:
        if fx == fx and (best is None or fx < best):
            best = fx
    return best


def c05(w):
    for F in facts(w):
        o = F.o
        if o.get('setup_exc') is not None or o.get('skipped') or 'started_at' not in o:
            continue
        basefx = F.base('fx', None)
        types = {oid: (op.type or getattr(op, 'log_type', None)) for G in facts(w)[:F.i + 1] for oid, op in G.opts.items()}
        known = {}        # all accepted evaluations up to now, of this line of history
        if F.loaded and F.loaded['x'] is not None and basefx is not None:
            known[(F.loaded['origin'] or {}).get('opt_id'), tuple(F.loaded['x']), basefx] = 1
        pts = [(p['seq'], p['fx'], p['x'], p['origin'], f'at evaluation {p["f"]}') for p in F.probes]
        if o.get('state') and F.reason is not None:
            r = o['result']
            st = o['state']
            pts.append((F.return_seq, r.fx, None if r.x is None else tuple(float(v) for v in r.x), r.origin, 'returned'))
            pts.append((F.return_seq, st['fx'], st['x'], st['origin'], 'public result at the end'))
        i, best, prev = 0, basefx if basefx is not None else None, None
        for seq, fx, x, origin, what in sorted(pts, key=lambda p: p[0]):
            while i < len(F.iters) and F.iters[i][0] < seq:
                _, oid, xx, ff = F.iters[i]
                if ff == ff and (best is None or ff < best):
                    best = ff
                known[oid, xx, ff] = 1
                i += 1
            if best is None or math.isinf(best):
                if fx is not None and not (fx == float('inf')):
                    yield f'result {fx} {what}, but no finite evaluation was accepted'
                continue
            if fx != best:
                yield f'result {fx} {what}, but the best accepted evaluation is {best}'
                break
            if x is None or (origin or {}).get('opt_id') is None or (origin['opt_id'], tuple(x), fx) not in known:
                yield f'result x={x} fx={fx} origin={origin} {what} is not an accepted evaluation'
                break
            if types.get(origin['opt_id']) and origin.get('type') != types[origin['opt_id']]:
                yield f'origin {origin} {what}, but optimizer {origin["opt_id"]} is a {types[origin["opt_id"]]}'
                break
            if prev is not None and fx > prev:
                yield f'result got worse: {prev} -> {fx}'
            prev = fx
        # truth: what is in the log was evaluated by that optimizer
        for oid, op in F.opts.items():
            truth = {(x, repr(fx)) for _, _, x, fx, _ in op.evals}
            bad = [(x, fx) for _, x, fx in op.iters if (x, repr(fx)) not in truth]
            if bad:
                yield f'accepted evaluation of optimizer {oid} {bad[0]} never happened'
                break
        if F.unsettled() or F.by.get('fs_fault'):
            continue
        r = o['result']
        y = o.get('yaml')
        if y and r.fx is not None and F.probes:
            sol = y['Solution']
            if sol['fx'] is None or float(sol['fx']) != r.fx or (r.x is not None and
                                                                  [float(v) for v in sol['x'] or []] != [float(v) for v in r.x]) \
                    or (sol['origin'] or {}) != (r.origin or {}):
                yield f'summary file reports {sol}, the run returned {r}'
        h = o.get('h5')
        if h and r.fx is not None and best is not None and fin(best) and F.probes:
            b = h['attrs'].get('best_iter')
            if b is None or b['fx'] != r.fx or b['opt_id'] != r.origin['opt_id'] or \
                    [float(v) for v in b['x']] != [float(v) for v in r.x]:
                yield f'log file reports best {b}, the run returned {r}'


# ---------------------------------------------------------------------------------------------------- C06

def prefix_problem(op, base_n=0):
    """ What is logged must be a prefix of what was evaluated. """
    ev = [(x, repr(fx)) for _, _, x, fx, _ in op.evals]
    lg = [(x, repr(fx)) for _, x, fx in op.iters]
    if lg != ev[:len(lg)]:
        for k, (a, b) in enumerate(zip(lg, ev)):
            if a != b:
                return f'logged evaluation {k + 1} of optimizer {op.oid} is {a}, it made {b}'
        return f'optimizer {op.oid}: {len(lg)} evaluations logged, {len(ev)} made'
    return None


def c06(w):
    for F in facts(w):
        o = F.o
        if o.get('setup_exc') is not None or o.get('skipped') or 'started_at' not in o:
            continue
        for oid, op in F.opts.items():
            par = op.workers and op.workers > 1 and op.type == 'CMAOptimizer'
            msg = parallel_problem(op) if par else prefix_problem(op)
            if msg:
                yield msg
                break
        n0 = F.base('f')
        k = 0
        for p in F.probes:
            while k < len(F.iters) and F.iters[k][0] < p['seq']:
                k += 1
            if p['f'] != n0 + k:
                yield f'evaluation counter is {p["f"]}, but {n0 + k} evaluations are logged'
                break
        if F.unsettled():
            continue
        st = o['state']
        if F.probes and st['f'] != n0 + len(F.iters):
            yield f'final evaluation counter is {st["f"]}, but {n0 + len(F.iters)} evaluations are logged'
        if F.ended_all_dead():
            for oid, op in F.opts.items():
                if any(v.startswith('GloMPO Termination') for _, v in op.end_conds):
                    continue
                miss = len(op.evals) - len(op.iters)
                if miss > (1 if op.killed else 0):
                    yield f'all optimizers ended by themselves but {miss} evaluations of optimizer {oid} are missing'
                    break
        h = o.get('h5')
        if h and not F.by.get('fs_fault'):
            yield from h5_rows(w, F, h)


def parallel_problem(op):
    left = {}
    for _, _, x, fx, _ in op.evals:
        left[x, repr(fx)] = left.get((x, repr(fx)), 0) + 1
    for _, x, fx in op.iters:
        k = (x, repr(fx))
        if not left.get(k):
            return f'optimizer {op.oid}: evaluation {k} logged more often than made'
        left[k] -= 1


def h5_rows(w, F, h):
    """ The evaluation tables agree with what was accepted. """
    ids = {}
    n_ex = w.sc['task'].get('n_extra', 0) if F.sess.get('detailed') else 0
    n0 = F.base('f')
    for oid, d in h['opts'].items():
        for call, x, fx, ex in d['rows']:
            if call in ids:
                yield f'evaluation number {call} is in the log file twice'
                return
            ids[call] = (oid, tuple(x), fx, ex)
    want = F.o['state']['f'] if F.o.get('state') else None
    if want is not None and F.probes and sorted(ids) != list(range(1, want + 1)):
        lost = sorted(set(range(1, want + 1)) - set(ids))[:5]
        more = sorted(set(ids) - set(range(1, want + 1)))[:5]
        yield f'{want} evaluations accepted, log file misses {lost}, has unexpected {more}'
        return
    from .workload import extras_of
    for k, (seq, oid, x, fx) in enumerate(F.iters):
        row = ids.get(n0 + k + 1)
        if row is None or row[0] != oid or row[1] != x or not same(row[2], fx):
            yield f'evaluation {n0 + k + 1} is {row} in the log file, accepted was {(oid, x, fx)}'
            return
        if tuple(row[3]) != extras_of(x, n_ex):
            yield f'extra columns of evaluation {n0 + k + 1} are {row[3]}, the task returned {extras_of(x, n_ex)}'
            return


# ---------------------------------------------------------------------------------------------------- C11

def conv_kind(v):
    return v is not None and (v.startswith('Optimizer convergence') or 'Normal termination' in v)


def c11(w):
    for F in facts(w):
        o = F.o
        if F.unsettled() or not F.probes:
            continue
        if F.by.get('fs_fault'):
            continue
        st = o['state']
        hanging_stop = {}
        late = F.probes[-5]['seq'] if len(F.probes) > 4 else F.start_seq
        for oid, op in F.opts.items():
            if op.log_opt is None and not op.restart:
                continue
            if not op.end_conds:
                if op.begin is not None or F.reason not in ('GloMPO Crash', 'User Interrupt'):
                    yield f'optimizer {oid} has no end condition in the log'
                continue
            if not any(k == 't_stop' for _, k, _ in op.meta):
                yield f'optimizer {oid} has no stop time in the log'
            c = op.cond
            hunted = any(v.startswith('GloMPO Termination') and 'User STOP' not in v for _, v in op.end_conds)
            userstop = any('User STOP' in v for _, v in op.end_conds)
            forced = 'Forced' in c
            ended = c in ('GloMPO Convergence', 'User Interrupt', 'GloMPO Crash')
            if hunted or userstop:
                if not c.startswith('GloMPO Termination') and not forced:
                    yield f'optimizer {oid} was shut down by the manager but its end condition is {c!r}'
                continue
            if forced:
                if not op.terms:
                    yield f'optimizer {oid} is recorded as forcibly terminated but was not'
                continue
            t0 = op.tx0()
            gone = F.exited(oid)
            first = op.end_conds[-1][0]
            if c.startswith('Optimizer convergence'):
                if t0 is None or t0 > first:
                    yield f'optimizer {oid} is recorded as converged but never said so'
            elif 'Normal termination' in c:
                if gone is None or gone > first or (t0 is not None and t0 < first and not op.killed) \
                        or op.how not in ('return', 'SystemExit', 'KeyboardInterrupt', 'BrokenPipeError'):
                    yield f'optimizer {oid} is recorded as {c!r}; it ended by {op.how}, signalled {t0 is not None}'
            elif 'Error termination' in c:
                if gone is None or gone > first or (op.how == 'return' and not op.killed and not op.terms):
                    yield f'optimizer {oid} is recorded as {c!r}, but it ended by {op.how}'
            elif ended:
                if c != ('GloMPO Convergence' if F.reason not in ('GloMPO Crash', 'User Interrupt') else F.reason):
                    yield f'optimizer {oid} is recorded as {c!r}, the run ended with {F.reason!r}'
                if gone is not None and gone < late and F.reason != 'GloMPO Crash':
                    yield f'optimizer {oid} is recorded as stopped by the end of the run ({c!r}), ' \
                          f'but it had ended ({op.how}) long before'
            else:
                yield f'unknown end condition {c!r} of optimizer {oid}'
        # counters
        if F.reason == 'GloMPO Crash':
            pass
        started = F.base('o') + F.n('log_opt')
        killed = len(set(F.base('victims', [])) | {oid for oid, op in F.opts.items()
                                                   if any(v.startswith('GloMPO Termination') for _, v in op.end_conds)})
        conv = F.base('conv') + sum(conv_kind(op.cond) for op in F.opts.values())
        if F.reason in ('GloMPO Crash', 'User Interrupt') and st['o'] == started + 1:
            started += 1       # interrupted while an optimizer was being set up
        got = {'started': st['o'], 'killed': len(st['victims']), 'conv': st['conv']}
        want = {'started': started, 'killed': killed, 'conv': conv}
        if got != want:
            yield f'counters are {got}, the histories say {want}'
        s = F.result.stats
        if 'f_evals' in s:
            g = {'started': s['opts_started'], 'killed': s['opts_killed'], 'conv': s['opts_conv'], 'evals': s['f_evals']}
            if g != {**want, 'evals': st['f']}:
                yield f'result.stats says {g}, the histories say {want} with {st["f"]} evaluations'
        y = o.get('yaml')
        if y:
            c = y['Counters']
            g = {'started': c['Optimizers']['Started'], 'killed': c['Optimizers']['Killed'],
                 'conv': c['Optimizers']['Converged']}
            if g != want or c['Hunts Started'] != st['hunts']:
                yield f'summary file counts {g}, hunts {c["Hunts Started"]}; the histories say {want}, {st["hunts"]}'


# ---------------------------------------------------------------------------------------------------- C08

EPS = 1e-9


def near(a, b):
    return abs(a - b) <= EPS * max(1.0, abs(a), abs(b))


def hunt_decision(spec, H, v, h, types, bounds, gone=()):
    """ What a kill condition says by its documentation; None if it is random or too close to call.
    H: {optimizer: ([x...], [fx...])} """
    import numpy as np
    kind, a = spec[0], spec[1:]
    if kind in ('or', 'and'):
        p, q = (hunt_decision(s, H, v, h, types, bounds, gone) for s in a)
        if kind == 'or':
            return True if True in (p, q) else None if None in (p, q) else False
        return False if False in (p, q) else None if None in (p, q) else True
    xs, fs = H.get(v, ([], []))
    n = len(fs)
    if kind == 'ScriptHunter':
        th = a[0][v % len(a[0])]
        return bool(th) and n >= th
    if kind == 'RaisingHunter':
        return None
    if kind == 'MinFuncCalls':
        return n >= a[0]
    if kind == 'LastPointsInvalid':
        last = fs[-a[0]:]
        return len(last) >= a[0] and not any(fin(f) for f in last)
    if kind == 'EvaluationsUnmoving':
        if n < a[0]:
            return False
        last = fs[-a[0]:]
        if not all(fin(f) for f in last):
            return None
        sd, lim = float(np.std(last)), abs(last[-1] * a[1])
        if sd == lim == 0:
            return True
        return None if near(sd, lim) else sd <= lim
    if kind == 'BestUnmoving':
        if n <= a[0]:
            return False
        if not all(fin(f) for f in fs):
            return None
        old, new = min(fs[:-a[0]]), min(fs)
        d, lim = abs(new - old), abs(old * a[1])
        if d == 0:
            return True
        return None if near(d, lim) else d <= lim
    if kind == 'TypeHunter':
        return types.get(v) == {'A': 'AlphaOpt', 'B': 'BetaOpt', 'C': 'GammaOpt'}[a[0]]
    diag = math.sqrt(sum((u - l) ** 2 for l, u in bounds))
    if kind == 'StepSize':
        last = xs[-a[0]:]
        if len(last) < a[0]:
            return False
        m = sum(math.dist(p, q) for p, q in zip(last, last[1:])) / (len(last) - 1)
        return None if near(m, a[1] * diag) else m <= a[1] * diag
    if kind == 'ParameterDistance':
        out = False
        for o in (sorted(H) if a[1] else [h]):
            if o == v or not H.get(o, ((), ()))[0]:
                continue
            d = math.dist(H[o][0][-1], xs[-1])
            if near(d, a[0] * diag) or o in gone and d < a[0] * diag:
                out = None          # histories of ended optimizers may have been cleared
            elif d < a[0] * diag:
                return True
        return out
    if kind == 'TimeAnnealing':
        return False if h in H and len(H[h][1]) / n >= a[0] else None
    if kind == 'ValueAnnealing':
        fh = min((f for f in H[h][1] if f == f), default=None) if h in H else None
        if fh is None:
            return None             # the hunter's history is not known
        fv = min((f for f in fs if f == f), default=math.inf)
        return False if fh == 0 or fv <= fh else None
    return None


def c08(w):
    fs = facts(w)
    bounds = w.sc.get('bounds', [(0.0, 100.0)] * w.dims)
    for F in fs:
        o = F.o
        if o.get('setup_exc') is not None or o.get('skipped') or 'started_at' not in o or not F.sess.get('hunter'):
            if o.get('skipped') is None and not F.sess.get('hunter') and F.n('hunt_eval'):
                yield 'hunts took place although no kill condition is configured'
            continue
        spec = F.sess['hunter']
        freq = F.sess.get('hunt_freq', 100)
        resumed = F.loaded is not None
        types = {oid: (op.type or getattr(op, 'log_type', None)) for G in fs[:F.i + 1] for oid, op in G.opts.items()}
        H, unknown = {}, set()
        if resumed:
            for oid, hist in F.loaded['hist'].items():
                if hist is None or F.sess.get('sf', 0) >= 3:
                    unknown.add(oid)
                elif hist:
                    H[oid] = ([], list(hist))
        last, best = F.base('last_hunt', 0), (None, None)
        if resumed and F.loaded['fx'] is not None and (F.loaded['origin'] or {}).get('opt_id'):
            best = (F.loaded['fx'], F.loaded['origin']['opt_id'])
        n_hunts, f = F.base('hunts'), F.base('f')
        evs = [(i[0], 'i', i) for i in F.iters] + [(h['seq'], 'h', h) for h in w.hunt_obs if h['sess'] == F.i] + \
              [(p['seq'], 'p', p) for p in F.probes]
        # at equal sequence numbers: observations come before the event with that number
        evs.sort(key=lambda e: (e[0], {'p': 0, 'h': 1, 'i': 2}[e[1]]))
        hunting, done, killed = None, {}, {}
        need_x = any(k in repr(spec) for k in ('StepSize', 'ParameterDistance'))

        def close():
            """ The hunt is over: were all optimizers looked at? """
            if hunting is None or F.user_error():
                return None
            at, hid, n = hunting
            for v, op in F.opts.items():
                if v == hid or v in done or op.begin is None or op.begin > at or (op.end or 10 ** 9) <= at or not op.iters \
                        or op.iters[0][0] > at or any(s <= at for s, _, k in op.tx if k == 0) or op.killed and op.killed <= at \
                        or any(s <= at for s, _ in op.end_conds) or (F.exited(v) or 10 ** 9) <= at:
                    continue
                return f'optimizer {v} was alive but not considered in the hunt at {n} evaluations'
            return None

        bad = None
        for seq, what, d in evs:
            if what == 'i':
                bad = close()
                if bad:
                    break
                _, oid, x, fx = d
                f += 1
                H.setdefault(oid, ([], []))
                H[oid][0].append(x)
                H[oid][1].append(fx)
                if fx == fx and not math.isinf(fx) and (best[0] is None or fx < best[0]) or \
                        fx == -math.inf:
                    best = (fx, oid)
                hunting = None
                if best[1] is not None and f - last >= freq:
                    last = f
                    n_hunts += 1
                    hunting, done = (seq, best[1], f), {}
                if oid in killed:
                    bad = f'evaluation of optimizer {oid} was logged after it had been hunted down'
                    break
            elif what == 'h':
                v = d['victim']
                if hunting is None:
                    bad = f"a hunt took place at {d['f']} evaluations, the last one was at {last}, frequency {freq}, best {best}"
                elif d['hunter'] != best[1]:
                    bad = f"optimizer {d['hunter']} hunts, but the best solution belongs to {best[1]}"
                elif v == best[1]:
                    bad = f'optimizer {v} holds the best solution and is hunted'
                elif v in killed or any(s < seq for s, _ in F.opts[v].end_conds):
                    bad = f'optimizer {v} is hunted after it has ended: {F.opts[v].end_conds}'
                elif v in done:
                    bad = f'optimizer {v} considered twice in one hunt'
                if bad:
                    break
                done[v] = 1
                H.setdefault(v, ([], []))
                if v not in unknown and not (resumed and need_x) and [repr(a) for a in H[v][1]] != [repr(a) for a in d['fxs']]:
                    bad = f"the hunter sees {d['fxs'][-5:]} as history of optimizer {v}, accepted was {H[v][1][-5:]}"
                    break
                nxt = next((e[0] for e in evs if e[0] > seq), 10 ** 9)
                kill = next((s for s, c in F.opts[v].end_conds if seq <= s < nxt and c.startswith('GloMPO Termination')
                             and 'User STOP' not in c), None)
                want = None if v in unknown or unknown and 'Distance' in repr(spec) or resumed and need_x else \
                    hunt_decision(spec, H, v, best[1], types, bounds,
                                  {i for i, op in F.opts.items() if i != best[1] and
                                   any(s <= seq for s, _ in op.end_conds)})
                if F.user_error() and F.user_error()[0][0] >= seq:
                    want = None
                if kill is None and want is True and nxt < 10 ** 9:
                    bad = f'the kill condition {spec} holds for optimizer {v} at {d["f"]} evaluations but it was not killed'
                elif kill is not None and want is False:
                    bad = f'optimizer {v} was killed at {d["f"]} evaluations although the kill condition {spec} does not hold'
                if bad:
                    break
                if kill is not None:
                    killed[v] = kill
            else:
                bad = close()
                hunting = None
                if not bad and d['hunts'] != n_hunts:
                    bad = f"{d['hunts']} hunts at {d['f']} evaluations, the history says {n_hunts}"
                if bad:
                    break
        if bad:
            yield bad
            continue
        # kills outside of hunts
        for v, op in F.opts.items():
            for s, c in op.end_conds:
                if c.startswith('GloMPO Termination') and 'User STOP' not in c and v not in killed and not F.user_error():
                    yield f'optimizer {v} was hunted down outside of a hunt'
        # effect
        for v, s in killed.items():
            op = F.opts[v]
            stops = [x for x, _ in op.rx if F.last_probe is None or x < F.last_probe]
            convs = [c for c in F.ckpts if c['converged']]
            if len(stops) > 1 and not convs:
                yield f'hunted optimizer {v} received {len(stops)} stop signals'
            if F.sess.get('aggressive') and not F.threads:
                if not op.terms and not (F.exited(v) or 10 ** 9) < s:
                    yield f'optimizer {v} was not terminated although aggressive_kill is on'
            elif F.cooperative(v):
                late = [e for e in op.starts if e[0] > s]
                if len(late) > F.script(v).get('check_every', 1) + 2:
                    yield f'optimizer {v} made {len(late)} more evaluations after it had been hunted down'


# ---------------------------------------------------------------------------------------------------- C07

def c07(w):
    from .direct import check_queue
    if getattr(w, 'direct', None) is not None:
        yield from check_queue(w, w.sc)


from .oracles2 import MORE
from .oracles3 import MORE as MORE3     # noqa

from .oracles4 import MORE4     # noqa
from .oracles5 import MORE5     # noqa

ALL = {**MORE, **MORE3, **MORE4, **MORE5, 'C07': c07, 'C08': c08, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C11': c11}
