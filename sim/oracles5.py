"""Property oracles about the end of a run, starting points, the shipped optimizers and their selection."""
import math
import re

from .facts import facts
from .oracles3 import made_by

INF = math.inf


# ---------------------------------------------------------------------------------------------------- C21

def checker_spec(w, F):
    """ The exit condition of a session, None if it cannot be said. """
    if F.o.get('kind') != 'load':
        return F.sess.get('checker')
    ov = F.sess.get('overrides') or {}
    if 'convergence_checker' in ov:
        return ov['convergence_checker']
    c = made_by(w, F)
    return None if c is None else checker_spec(w, facts(w)[c['sess']])


def leaves(spec):
    if spec[0] in ('or', 'and'):
        return leaves(spec[1]) + leaves(spec[2])
    return [spec]


class Cond:
    """ Reference model of exit conditions; three-valued, None = cannot be said (the clock is between two looks). """

    def __init__(self, spec, path=''):
        self.spec, self.kind = spec, spec[0]
        self.mark = None
        self.last = None
        self.subs = [Cond(s) for s in spec[1:3]] if self.kind in ('or', 'and') else []

    def reset(self):
        self.last = None
        for s in self.subs:
            s.reset()

    def __call__(self, s):
        if self.kind == 'or':
            self.reset()
            a = self.subs[0](s)
            self.last = True if a else (self.subs[1](s) if a is False else (self.subs[1](s) or None))
        elif self.kind == 'and':
            self.reset()
            a = self.subs[0](s)
            self.last = False if a is False else (self.subs[1](s) if a else (None if self.subs[1](s) is not False else False))
        else:
            self.last = self.leaf(s, *self.spec[1:])
        return self.last

    def leaf(self, s, *a):
        k = self.kind
        if k == 'MaxFuncCalls':
            return s['f'] >= a[0]
        if k == 'MaxOptsStarted':
            return s['o'] >= a[0]
        if k == 'MaxKills':
            return s['kills'] >= a[0]
        if k == 'NOptConverged':
            return s['conv'] >= a[0]
        if k == 'KillsAfterConvergence':
            if self.mark is None and s['conv'] >= a[1]:
                self.mark = s['kills']
            return self.mark is not None and s['kills'] - self.mark >= a[0]
        if k == 'TargetCost':
            return s['fx'] is not None and s['fx'] <= a[0] + (a[1] if len(a) > 1 else 1e-6)
        if k == 'MaxSeconds':
            lo, hi = s['time']
            if a[0].get('overall_max'):
                lo, hi, lim = lo + s['used'][0], hi + s['used'][1], a[0]['overall_max']
            else:
                lim = a[0]['session_max']
            return True if lo >= lim + 1e-6 else False if hi < lim - 1e-6 else None
        if k == 'Raising':
            return False
        raise KeyError(k)

    def flat(self):
        return [x for s in self.subs for x in s.flat()] if self.subs else [self]

    def clone_marks(self, other):
        for a, b in zip(self.flat(), other.flat()):
            a.mark = b.mark


def time_used(w, F):
    """ Bounds of the time used by the sessions before this one. """
    c = made_by(w, F) if F.o.get('kind') == 'load' else None
    if c is None:
        t = F.base('t_used')
        return t, t
    P = facts(w)[c['sess']]
    lo, hi = time_used(w, P)
    if c['started']:
        t0 = next((p['t_start'] for p in P.probes), None)
        if t0 is None:
            return F.base('t_used'), F.base('t_used')
        lo, hi = lo + c['wall0'] - t0 - .01, hi + c.get('wall1', c['wall0']) - t0 + .01
    return min(lo, hi), max(lo, hi)


def states(w, F):
    """ The state of the run each time its exit condition is tested, from what was seen to happen. """
    f, o, best = F.base('f'), F.base('o'), F.base('fx', None)
    its = list(F.iters)
    opened = sorted(op.log_opt for op in F.opts.values() if op.log_opt is not None)
    probes = [s for s in w.snapshots if s['sess'] == F.i]
    used = time_used(w, F)
    for n, p in enumerate(probes):
        while its and its[0][0] < p['seq']:
            q, oid, x, fx = its.pop(0)
            f += 1
            if best is None or fx < best:
                best = fx if fx == fx else INF
        new = sum(1 for q in opened if q < p['seq'])
        t0 = p['t_start']
        if p['started']:
            nxt = probes[n + 1]['wall'] if n + 1 < len(probes) else (F.o.get('state') or {}).get('t_end') or INF
            a, b = p['wall'] - t0, nxt - t0
            time = (min(a, b), max(a, b))
        else:
            time = (0.0, 0.0)
        yield p, {'f': f, 'o': o + new, 'kills': p['kills'], 'conv': p['conv'], 'fx': best, 'time': time,
                  'used': used, 'started': p['started']}


def condition(w, F, until=INF):
    """ [(probe, state, result, [results of its parts])] of a session and the condition afterwards; None if unknown. """
    spec = checker_spec(w, F)
    if spec is None:
        return None, None
    c = Cond(spec)
    if F.o.get('kind') == 'load' and 'convergence_checker' not in (F.sess.get('overrides') or {}):
        k = made_by(w, F)
        if k is None:
            return None, None
        _, before = condition(w, facts(w)[k['sess']], k['seq0'])
        if before is None:
            return None, None
        c.clone_marks(before)
    out = []
    for p, s in states(w, F):
        if p['seq'] > until:
            break
        r = c(s)
        parts = [x.last for x in c.flat()]
        out.append((p, s, r, [(v, v if v is not None or x.kind == 'KillsAfterConvergence' else x.leaf(s, *x.spec[1:]))
                              for v, x in zip(parts, c.flat())]))
    return out, c


LEAF = re.compile(r'(\w+)\(([^()]*)\) = (None|True|False)')


def c21(w):
    for F in facts(w):
        o = F.o
        if o.get('skipped') or o.get('crashed') or o.get('setup_exc') is not None or F.sess.get('no_start'):
            continue
        bad = F.unexpected_crash()
        if bad and not isinstance(o.get('run_exc'), (KeyError, FileExistsError)):
            yield f'session {F.i} ended in an error: {bad}'
            continue
        tested, c = condition(w, F)
        if tested is None:
            continue
        for p, s, r, parts in tested:
            if p['started'] and (p['f'], p['fx']) != (s['f'], s['fx']):
                yield f'the run has {p["f"]} evaluations and best {p["fx"]} when {s["f"]} and {s["fx"]} were accepted'
                break
        early = [t for t in tested if not t[0]['started']]
        run = [t for t in tested if t[0]['started']]
        for p, s, r, parts in early[-1:]:
            if r and (run or F.opts and any(op.begin is not None for op in F.opts.values())):
                yield f'the run was started although its exit condition was met: {checker_spec(w, F)} with {s}'
            if not run and r is False and o.get('returned') and o.get('result') is not None and \
                    o.get('run_exc') is None and not F.by.get('interrupt_sent'):
                live = F.loaded and F.loaded['spawning']
                if live:
                    yield f'the run was not started although its exit condition {checker_spec(w, F)} was not met: {s}'
        if not run:
            continue
        for k, (p, s, r, parts) in enumerate(run[:-1]):
            if r:
                yield f'the run went on although {checker_spec(w, F)} was met with {s}'
                break
        # started after the end
        last, s, r, parts = run[-1]
        if r:
            late = [e for e in F.by.get('log_opt', ()) if e[0] > last['seq']]
            if late:
                yield f'optimizer {late[0][3]} was started after the exit condition was met'
        # nothing left to do
        for k in range(1, len(run) - 1):
            p0, p = run[k - 1][0], run[k][0]
            if p0['spawning'] or p['spawning']:
                continue
            if all(F.exited(v) is not None and F.exited(v) < p0['seq'] and op.end_conds and
                   op.end_conds[0][0] < p0['seq'] for v, op in F.opts.items()):
                yield f'the run went on although all optimizers had ended and none could be started at step {k}'
                break
        if not o.get('returned') or F.reason is None or o.get('stuck'):
            continue
        if F.reason in ('GloMPO Crash', 'User Interrupt'):
            if F.reason == 'User Interrupt' and not F.by.get('interrupt_sent'):
                yield 'the run says it was interrupted, which it was not'
            continue
        if F.ended_all_dead():
            if r:
                yield f'end reason {F.reason!r} although {checker_spec(w, F)} was met with {s}'
            if last['spawning']:
                yield 'ended for want of optimizers although some could be started'
            left = [v for v, op in F.opts.items() if (op.log_opt is not None or op.restart) and
                    (F.exited(v) is None or F.exited(v) > last['seq'])]
            if left:
                yield f'ended for want of optimizers although {left} were active'
            continue
        if r is False:
            yield f'ended with {F.reason!r} but {checker_spec(w, F)} was not met: {s}'
            continue
        got = LEAF.findall(F.reason)
        spec = leaves(checker_spec(w, F))
        if got and got[0][0] == 'ProbeChecker':
            got = got[1:]
        if len(got) != len(spec):
            yield f'end reason {F.reason!r} does not describe {spec}'
            continue
        for (name, args, res), sp, val in zip(got, spec, parts):
            if sp[0] == 'Raising':
                continue
            if name != sp[0]:
                yield f'end reason {F.reason!r} does not describe {spec}'
                break
            nums = [float(v.split('=')[1]) for v in args.split(', ') if v.split('=')[1] != 'None']
            want = [float(v) for v in (sp[1].values() if isinstance(sp[1], dict) else sp[1:])]
            if nums[:len(want)] != want and sorted(nums) != sorted(want):
                yield f'end reason {F.reason!r} does not describe {spec}'
                break
            looked, true = val
            if true is not None and res != str(true) and (looked is not None or res != 'None'):
                yield f'end reason {F.reason!r}, but {name}({args}) was {true} with {s}'
                break


# ---------------------------------------------------------------------------------------------------- C22

def c22(w):
    from .oracles import c03, c05, c11
    from .oracles4 import c17, h5_agrees
    upset = False
    for F in facts(w):
        o = F.o
        if o.get('skipped') or o.get('crashed') or o.get('setup_exc') is not None or F.sess.get('no_start'):
            continue
        if o.get('stuck'):
            yield f'session {F.i} never ends: {o["stuck"][:300]}'
            continue
        # what struck the manager
        errors = F.by.get('user_error', []) + F.by.get('generate_error', [])
        hits = [e for e in F.by.get('exc_delivered', ())]
        raised = [c for c in F.ckpts if c['exc'] and (F.sess.get('ckpt') or {}).get('raise_checkpoint_fail')]
        upset = upset or bool(errors or hits or raised or F.by.get('fs_fault'))
        exc = o.get('run_exc')
        if exc is not None and not isinstance(exc, (KeyError, FileExistsError)):
            yield f'start_manager raised {type(exc).__name__}: {o["run_tb"][-500:]}'
            continue
        if not o.get('returned'):
            continue
        r = o['result']
        if r is None or not hasattr(r, 'fx'):
            yield f'start_manager returned {r!r}'
            continue
        bad = F.unexpected_crash()
        if bad and not F.by.get('fs_fault'):
            yield f'session {F.i} ended in an error: {bad}'
        if bad and F.by.get('fs_fault') and not raised:
            yield f'session {F.i} ended in an error when output could not be written: {bad}'
        if not F.probes and not hits:
            continue
        if hits and F.reason != 'User Interrupt' and not errors and not raised and not F.lock_race():
            yield f'the run was interrupted but gives {F.reason!r} as its end'
        if not hits and F.reason == 'User Interrupt':
            yield 'the run says it was interrupted, which it was not'
        if errors and not hits and F.reason != 'GloMPO Crash':
            yield f'{errors[0][3:]} raised an error but the run gives {F.reason!r} as its end'
        if F.reason == 'GloMPO Crash' and F.crash_text() is not None and errors and not raised and \
                'scripted' not in F.crash_text():
            yield f'the error reported is not the one raised: {F.crash_text()[-300:]}'
        # nothing starts after it
        last = (hits or errors or [None])[-1]
        if last is not None:
            took = o['return_t'] - last[1]
            if took > 10.0 + .2 * len(F.opts) + 2e4 * w.sc.get('base_cost', 2e-5) * w.sc.get('mng_speed', 1) and not F.by.get('stall') and w.sc.get('mng_speed', 1) <= 5:
                yield f'the run took {took} s to return after it had been struck'
            late = [e for e in F.by.get('log_opt', ()) if e[0] > last[0]]
            if late:
                yield f'optimizer {late[0][3]} was started after the run had been struck'
        # optimizers which were told to stop do not go on for long
        sf = F.sess.get('sf', 0)
        if F.by.get('fs_fault') and sf >= 3 and o.get('returned'):
            if 'h5' not in o:
                yield f'log file missing or unreadable after other output could not be written: {o.get("h5_error")}'
            else:
                yield from h5_agrees(w, F, o['h5'], o['state'], r)
            if o.get('open_files'):
                yield f'files left open: {o["open_files"]}'
        if F.by.get('fs_fault') and not any('yml' in str(e) or e[4] == 'mkdir' for e in F.by['fs_fault']) and sf >= 1 and 'yaml' not in o:
            yield f'summary file missing although only other output could not be written: {o.get("yaml_error")}'
    if upset:
        yield from c03(w)
        yield from c05(w)
        # an interrupt may strike between the parts of one step
        struck = any(F.by.get('exc_delivered') for F in facts(w))
        yield from (m for m in c11(w) if not struck or 'is recorded as' not in m and 'the histories say' not in m)
        yield from c17(w)


MORE5 = {'C21': c21, 'C22': c22}
