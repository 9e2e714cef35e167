"""What truly happened in one session of a run, extracted from the recorded events."""
import math


class Opt:
    def __init__(self, oid):
        self.oid = oid
        self.begin = self.end = self.how = None      # sequence numbers of opt_begin, opt_end
        self.begin_t = self.end_t = None
        self.restart = False
        self.x0 = self.type = self.workers = self.state = self.kw = None
        self.evals, self.starts, self.tx, self.rx, self.saves, self.injects = [], [], [], [], [], []
        self.iters = []             # accepted into the log
        self.meta, self.msgs = [], []
        self.proc_start = self.proc_exit = None
        self.terms = []
        self.thread_exit = None
        self.fails = []
        self.killed = None          # died or sigkill
        self.log_opt = None
        self.hang = None

    @property
    def end_conds(self):
        return [(s, v) for s, k, v in self.meta if k == 'end_cond']

    @property
    def cond(self):
        c = self.end_conds
        return c[-1][1] if c else None

    def tx0(self):
        return next((s for s, t, k in self.tx if k == 0), None)


def effective(sess, loaded):
    """ The settings a session really has: those of the checkpoint unless overridden. """
    if not loaded or sess.get('kind') != 'load':
        return sess
    sess = dict(sess, sf=loaded['sf'], max_jobs=loaded['max_jobs'], share=loaded['share'], hunt_freq=loaded['hunt_frequency'],
                end_timeout=loaded['end_timeout'], aggressive=loaded['aggressive'], split=loaded['split'],
                detailed=loaded['detailed'])
    if (sess['backend'] != 'threads') != loaded['proc_backend']:
        sess['backend'] = 'processes' if loaded['proc_backend'] else 'threads'
    return sess


class Facts:
    def __init__(self, w, i):
        self.w, self.i = w, i
        self.o = o = w.sessions[i]
        self.sess = effective(w.sc['sessions'][i], o.get('loaded'))
        self.threads = self.sess.get('backend') == 'threads'
        self.ev = w.events[o['seq0']:o.get('end_seq', len(w.events))]
        self.opts = {}
        self.iters = []       # (seq, oid, x, fx)
        self.spawn_asked = []
        self.by = {}
        for e in self.ev:
            self._take(e)
        self.probes = [s for s in w.snapshots if s['sess'] == i and s['started']]
        self.ckpts = [c for c in w.ckpt_obs if c['sess'] == i]
        self.result = o.get('result')
        self.reason = (self.result.stats or {}).get('end_cond') if self.result is not None else None
        self.loaded = o.get('loaded')
        self.last_probe = self.probes[-1]['seq'] if self.probes else None
        self.start_seq = o.get('started_at', o['seq0'])
        self.return_seq = o.get('return_seq')

    def opt(self, oid):
        if oid not in self.opts:
            self.opts[oid] = Opt(oid)
        return self.opts[oid]

    def _take(self, e):
        seq, t, k = e[0], e[1], e[2]
        d = e[3:]
        self.by.setdefault(k, []).append(e)
        if k == 'eval':
            self.opt(d[0]).evals.append((seq, t, d[1], d[2], d[3]))
        elif k == 'eval_start':
            self.opt(d[0]).starts.append((seq, t, d[1]))
        elif k == 'log_iter':
            self.iters.append((seq, d[0], d[1], d[2]))
            self.opt(d[0]).iters.append((seq, d[1], d[2]))
        elif k == 'tx':
            self.opt(d[0]).tx.append((seq, t, d[1]))
        elif k == 'rx_stop':
            self.opt(d[0]).rx.append((seq, t))
        elif k == 'opt_begin':
            o = self.opt(d[0])
            o.begins = getattr(o, 'begins', 0) + 1
            o.begin, o.begin_t, o.type, o.workers, o.x0, o.restart, o.state, o.kw = seq, t, *d[1:]
        elif k == 'opt_pipe':
            self.opt(d[0]).pipe = d[1]
        elif k == 'opt_end':
            o = self.opt(d[0])
            o.end, o.end_t, o.how = seq, t, d[1]
        elif k == 'proc_start' and d[0].startswith('Opt'):
            self.opt(int(d[0][3:])).proc_start = (seq, t)
        elif k == 'proc_exit' and d[0].startswith('Opt'):
            self.opt(int(d[0][3:])).proc_exit = (seq, t, d[1])
        elif k == 'terminate' and d[0].startswith('Opt'):
            self.opt(int(d[0][3:])).terms.append((seq, t, d[1]))
        elif k == 'thread_exit' and d[0].startswith('Opt'):
            self.opt(int(d[0][3:])).thread_exit = (seq, t)
        elif k in ('died', 'sigkill'):
            self.opt(d[0]).killed = seq
        elif k == 'fail':
            self.opt(d[0]).fails.append((seq, d[1]))
        elif k == 'hang':
            self.opt(d[0]).hang = seq
        elif k == 'log_opt':
            o = self.opt(d[0])
            o.log_opts = getattr(o, 'log_opts', 0) + 1
            o.log_opt = seq
            o.log_type = d[1]
        elif k == 'log_meta':
            self.opt(d[0]).meta.append((seq, d[1], d[2]))
        elif k == 'log_msg':
            self.opt(d[0]).msgs.append((seq, d[1]))
        elif k == 'opt_save':
            self.opt(d[0]).saves.append((seq, d[1], d[2]))
        elif k == 'inject':
            self.opt(d[0]).injects.append((seq, d[1], d[2]))
        elif k == 'spawn_asked':
            self.spawn_asked.append((seq, d[0], d[1], d[2]))

    # ------------------------------------------------------------------ classification
    def n(self, kind):
        return len(self.by.get(kind, ()))

    def user_error(self):
        return self.by.get('user_error')

    def crash_text(self):
        for _, si, cat, msg in self.w.warnings:
            if si == self.i and 'Caught exception' in msg and 'Optimization failed' in msg:
                return msg
        return ''

    def script(self, oid):
        return self.w.script(oid)

    def entries(self):
        return [(e[0], (e[1] or {}).get('workers', 1)) for e in self.sess['selector']['entries']]

    def lock_race(self):
        """ An interrupt which strikes while threading.Condition takes its lock again becomes a RuntimeError there. """
        return bool(self.by.get('exc_delivered') and 'release unlocked lock' in (self.crash_text() or ''))

    def excused(self):
        if self.lock_race():
            return True
        """ A legitimate cause of an error end of the run. """
        if self.user_error() or self.by.get('fs_fault') or self.by.get('generate_error'):
            return True
        if (self.sess.get('ckpt') or {}).get('raise_checkpoint_fail'):
            return any(c['exc'] for c in self.ckpts)
        return False

    def documented_crash(self):
        txt = self.crash_text()
        if 'spawning and crashing immediately' in txt:
            last = self.iters[-1][0] if self.iters else -1
            starts = [o for o in self.opts.values() if o.log_opt is not None and o.log_opt > last]
            crashed = any(o.fails or o.how not in (None, 'return') for o in self.opts.values())
            n = len(starts)
            if self.loaded and not self.iters and self.loaded['last_spawn'][0] == self.loaded['f']:
                n += max(0, self.loaded['o'] - self.loaded['last_spawn'][1])
                crashed = crashed or self.loaded['opt_crashed']
            # six starts without any evaluation, and a crash
            return crashed and n >= 5
        if 'Not enough worker slots' in txt:
            mj = self.sess['max_jobs']
            return max(wk for _, wk in self.entries()) > mj
        return False

    def unexpected_crash(self):
        """ Text of an error the run ended with and which nobody but the manager is responsible for. """
        o = self.o
        if o.get('setup_exc') is not None or o.get('crashed'):
            return None
        if o.get('run_exc') is not None:
            return None if self.excused() else 'start_manager raised ' + o['run_tb'][-600:]
        if self.reason == 'GloMPO Crash' and not self.excused() and not self.documented_crash():
            return self.crash_text()[-600:]
        return None

    def unsettled(self):
        """ True if nothing can be said about the end of the session. """
        o = self.o
        return bool(o.get('skipped') or o.get('setup_exc') is not None or o.get('stuck') or o.get('crashed')
                    or not o.get('returned') or self.sess.get('no_start'))

    def cooperative(self, oid):
        sc = self.script(oid)
        op = self.opts[oid]
        return not (op.hang is not None and not sc.get('hang_for') or sc.get('ignore_stop'))

    def slowest(self, oid):
        """ Upper bound of the time an optimizer needs to react, by what it was seen doing. """
        sc = self.script(oid)
        op = self.opts[oid]
        every = sc.get('check_every', 1)
        longest = 0.0
        ends = {s: t for s, t, *_ in op.evals}
        starts = [t for _, t, _ in op.starts]
        stops = [t for _, t, *_ in op.evals]
        for a, b in zip(starts, stops):
            longest = max(longest, b - a)
        if len(starts) > len(stops):
            longest = max(longest, 1e9)
        return longest * (every + 1) + sc.get('linger', 0) + sc.get('linger2', 0) + sc.get('hang_for', 0) \
            + sc.get('pre_conv_delay', 0) + sc.get('save_slow', 0) + 1.0

    def left_running(self):
        """ Threads cannot be terminated: with a limited time-out (by choice, or 0.1 s after an error) those which are
        slower are documented to be left running after the run has returned. """
        return self.threads and (self.reason in ('GloMPO Crash', 'User Interrupt') or bool(self.sess.get('end_timeout')))

    def stop_time(self):
        """ seq at which the loop is over. """
        return self.last_probe

    def exited(self, oid):
        """ (seq) at which the thread or process was gone, None if it was not. """
        op = self.opts[oid]
        if self.threads:
            return op.thread_exit[0] if op.thread_exit else None
        return op.proc_exit[0] if op.proc_exit else None

    def base(self, key, default=0):
        return self.loaded[key] if self.loaded else default

    def ended_all_dead(self):
        return self.reason is not None and 'No optimizers alive' in self.reason


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return a == b


def facts(w):
    if not hasattr(w, '_facts'):
        w._facts = [Facts(w, i) for i in range(len(w.sessions))]
    return w._facts
