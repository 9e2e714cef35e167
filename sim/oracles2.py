"""Property oracles, continued (see oracles.py)."""
import math

from .facts import facts, same

INF = 10 ** 9


def user_stopped(op):
    return next((s for s, v in op.end_conds if v.startswith('GloMPO Termination') and 'User STOP' in v), None)


def shut_down(op):
    return next((s for s, v in op.end_conds if v.startswith('GloMPO Termination')), None)


# ---------------------------------------------------------------------------------------------------- C09

def stop_number(name):
    if not name.startswith('STOP_') or name.count('_') != 1:
        return None
    t = name[5:]
    return int(t) if t.isdigit() and not t.startswith('0') else None


def c09(w):
    puts = {}
    for F in facts(w):
        o = F.o
        if o.get('setup_exc') is not None or o.get('skipped') or 'started_at' not in o or o.get('crashed'):
            continue
        msg = F.unexpected_crash()
        if msg:
            yield f'session {F.i} ended in an error: {msg}'
            continue
        if o.get('stuck') or F.by.get('fs_fault'):
            continue
        puts = {n: [F.start_seq] for n in puts if f'work/STOP_{n}' in o.get('pre_tree', ())}    # still there from before
        for e in F.by.get('file_put', ()):
            n = stop_number(e[3])
            if n is not None:
                puts.setdefault(n, []).append(e[0])
        gone = {}
        for e in F.by.get('file_gone', ()):
            gone.setdefault(e[3], []).append(e[0])
        left = set(o.get('tree', {}))
        # nobody else is stopped
        conv_ckpt = [c['seq0'] for c in F.ckpts if c['converged']]
        end = min(conv_ckpt) if conv_ckpt else F.last_probe
        for oid, op in F.opts.items():
            u, k = user_stopped(op), shut_down(op)
            if u is not None and not any(s < u for s in puts.get(oid, ())):
                yield f'optimizer {oid} is recorded as stopped by the user, who did not ask for that'
            early = [s for s, _ in op.rx if end is not None and s < end and not F.user_error()]
            if early and (k is None or k > early[0]) and not F.by.get('interrupt_sent'):
                # the signal is sent before the record of the end is made, within one step of the manager
                nxt = next((p['seq'] for p in F.probes if p['seq'] > early[0]), INF)
                if k is None or k > nxt:
                    yield f'optimizer {oid} received a stop signal which neither hunting nor a stop file explains'
        # whoever was named is stopped
        for n, seqs in puts.items():
            op = F.opts.get(n)
            for s in seqs:
                ps = [p for p in F.probes if p['seq'] > max(s, F.start_seq)][:2]
                if op is None or len(ps) < 2 or not (op.restart or op.log_opt is not None and op.log_opt < s):
                    continue
                until = ps[1]['seq']
                if any(s < g <= until for g in gone.get(f'STOP_{n}', ())):
                    continue
                if any(t <= until for t, _, k in op.tx if k == 0) or (F.exited(n) or INF) <= until or \
                        any(t <= until and not ('User STOP' in c) for t, c in op.end_conds) or (op.killed or INF) <= until:
                    continue
                u = user_stopped(op)
                if u is None or u > until:
                    yield f'optimizer {n} was not stopped within a manager cycle after STOP_{n} appeared'
                    break
        for n, seqs in puts.items():
            u = user_stopped(F.opts[n]) if n in F.opts else None
            if u is not None and seqs[-1] < u and f'work/STOP_{n}' in left and F.i == len(w.sessions) - 1:
                yield f'STOP_{n} was obeyed but not consumed'
            if u is None:
                continue
            op = F.opts[n]
            stops = [s for s, _ in op.rx if end is not None and s < end]
            if len(stops) > 1:
                yield f'optimizer {n} received {len(stops)} stop signals'
            if F.sess.get('aggressive') and not F.threads:
                if not op.terms and not (F.exited(n) or INF) < u:
                    yield f'optimizer {n} was not terminated although aggressive_kill is on'
            elif F.cooperative(n):
                late = [e for e in op.starts if e[0] > u]
                if len(late) > F.script(n).get('check_every', 1) + 2:
                    yield f'optimizer {n} made {len(late)} more evaluations after it had been stopped by the user'


# ---------------------------------------------------------------------------------------------------- C10

def c10(w):
    for F in facts(w):
        o = F.o
        if o.get('setup_exc') is not None or o.get('skipped') or 'started_at' not in o or o.get('crashed') or not F.probes:
            continue
        msg = F.unexpected_crash()
        if msg:
            yield f'session {F.i} ended in an error: {msg}'
            continue
        L = F.sess.get('force_after', -1)
        allowed = L > 0 and not F.threads
        clock = bool(F.by.get('clock'))
        end = F.last_probe if not o.get('stuck') else INF
        cks = [(c['seq0'], c['seq1'] or INF, c.get('t0'), c.get('t1')) for c in F.ckpts]
        jumpy = F.user_error() or F.by.get('interrupt_sent')
        for oid, op in F.opts.items():
            hunted = shut_down(op)
            for seq, t, _ in op.terms:
                if seq > end or jumpy:
                    continue
                if F.sess.get('aggressive') and hunted is not None and abs(hunted - seq) < 6:
                    continue
                if not allowed:
                    yield f'optimizer {oid} was terminated during the run although forced terminations are off'
                    break
                if clock:
                    continue
                ref = [op.begin_t if op.begin_t is not None else t]
                ref += [tt for s, tt, *_ in op.evals if s < seq] + [tt for s, tt, k in op.tx if s < seq]
                e = max(ref)
                if hunted is not None and hunted < seq:
                    th = w.events[min(hunted, len(w.events) - 1)][1]
                    # a stalled manager may take a while from deciding to telling
                    th = max([w.events[q][1] for q in range(op.begin or 0, min(hunted, len(w.events) - 1))
                              if w.events[q][2] in ('log_iter', 'hunt_eval', 'spawn_asked')] or [th])
                    if t - th < L - .5:
                        yield f'optimizer {oid} was forcibly terminated {t - th:.2f} s after it was told to stop (limit {L})'
                    continue
                for s0, s1, t0, t1 in cks:
                    if any(k == 1 and s0 < s < min(s1, seq) and tt < t - 1.5 for s, tt, k in op.tx):
                        if s1 > seq and F.script(oid).get('save_slow', 0) < .5 * L:
                            yield f'optimizer {oid} was forcibly terminated while it was paused for a checkpoint'
                        elif t1 is not None:
                            e = max(e, t1)
                near = sorted(x for x in ref + [e] if x > t - L - 4.0)
                gaps = [b - a for a, b in zip(near, near[1:])] + [t - near[-1]] if near else [INF]
                if near and near[0] > max(t - L - 4.0 + L, op.begin_t or 0):
                    gaps.append(INF)        # it had been silent before
                if max(gaps) < .6 * L - .3:
                    yield f'optimizer {oid} was forcibly terminated {t - e:.2f} s after its last sign of life and without ' \
                          f'ever having been silent for more than {max(gaps):.2f} s (limit {L})'
                if 'Forced' not in (op.cond or '') and not any(s < seq for s, _ in op.end_conds):
                    yield f'optimizer {oid} was forcibly terminated but its end condition is {op.cond!r}'
                break
        if not allowed or clock or jumpy:
            continue
        for oid, op in F.opts.items():
            if op.begin is None or F.threads:
                continue
            hunted = shut_down(op)
            signs = [(op.log_opt or op.begin, op.begin_t)] + [(s, w.events[s][1]) for s, _, _ in op.iters if s < len(w.events)]
            signs += [(s, w.events[s][1]) for s, _ in op.msgs if s < len(w.events)] + \
                     [(s, w.events[s][1]) for s, _ in op.end_conds if s < len(w.events)]
            signs += [(s, t) for s, t, _ in op.tx]
            for c in F.ckpts:
                signs.append((c['seq0'], INF if c['seq1'] is None else c['t1']))
            for k in range(len(F.probes) - 1):
                p, q = F.probes[k], F.probes[k + 1]
                if p['seq'] < op.begin or any(s0 < q['seq'] and s1 > p['seq'] for s0, s1, _, _ in cks):
                    continue
                if (F.exited(oid) or INF) <= q['seq'] or any(s <= q['seq'] for s, _, _ in op.terms):
                    break
                if hunted is not None and hunted < p['seq']:
                    base = w.events[min(hunted, len(w.events) - 1)][1]
                    what = 'ignored its stop signal'
                else:
                    base = max([t for s, t in signs if s <= q['seq']])
                    what = 'was silent'
                    if hunted is not None and hunted <= q['seq']:
                        continue
                # time the manager itself was held up does not count
                lost = sum(max(0.0, b['t'] - a['t'] - 1.5) for a, b in zip(F.probes, F.probes[1:])
                           if b['t'] > base and a['seq'] <= p['seq'])
                looks = sum(1 for b in F.probes[:k] if b['t'] > base + L)
                if p['t'] - base - lost > L + 4.0 and looks > 4:      # suspicion, one accepting pass and a second look
                    yield f'optimizer {oid} {what} for {p["t"] - base:.1f} s but was not terminated (limit {L})'
                    return


MORE = {'C09': c09, 'C10': c10}
