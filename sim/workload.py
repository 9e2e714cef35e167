"""The simulated world around glompo: tasks, optimizers, users, faults, and the recording of what truly happened."""
import functools
import hashlib
import logging
import os
import shutil
import sys
import threading
import traceback
import warnings
from pathlib import Path

import numpy as np

from . import osim
from .core import Sim, Choice, Stuck
from .osim import REAL, Disk, SimProc

W = None    # the current World


def set_world(w):
    global W
    W = w


# ------------------------------------------------------------------------------------------------ task

def fval(x, vals):
    """ The objective function: a pure function of the vector. """
    mode, seed = vals['mode'], vals.get('seed', 0)
    a = [int(round(float(v) * 1000)) for v in x]
    h = seed * 2654435761 % 1000003
    for v in a:
        h = (h * 1000003 + v * 7919 + 104729) % 2147483647
    u = h / 2147483647.0
    if mode == 'rand':
        return round(u * 200 - 100, 6)
    if mode == 'pos':
        return round(u * 1000 + 0.001, 6)
    if mode == 'ties':
        return float(h % 6)
    if mode == 'zero':
        return float(max(0, h % 40 - 3))
    if mode == 'neg':
        return round(-u * 1e4 - 1, 6)
    if mode == 'inf':
        return float('inf') if h % 3 == 0 else round(u * 10, 6)
    if mode == 'allinf':
        return float('inf')
    if mode == 'desc':      # optimizers improve at rates of their own
        oid, it = float(x[0]), float(x[1])
        q = (int(oid) * 37 + seed) % 17
        return round(q + 50.0 / (1 + it) + u * vals.get('noise', 0.5), 6)
    if mode == 'flat':      # optimizers become stuck
        oid, it = float(x[0]), float(x[1])
        q = (int(oid) * 37 + seed) % 17
        return float(q) + max(0.0, 6 - it) + (0.0 if int(oid) % 2 else round(u, 3))
    if mode == 'sphere':
        return round(float(sum((float(v) - 3.0 - i) ** 2 for i, v in enumerate(x))), 9)
    raise ValueError(mode)


class SimTask:
    """ The objective as the user supplies it. """

    def __init__(self, vals, n_extra=0, headers=False, picklable=True):
        self.vals = vals
        self.n_extra = n_extra
        self.with_headers = headers
        self.picklable = picklable

    def __call__(self, x):
        return W.evaluate(self, x, False)[0]

    def detailed_call(self, x):
        return W.evaluate(self, x, True)

    def headers(self):
        if not self.with_headers:
            raise NotImplementedError
        import tables as tb
        return {f'e{i}': tb.Float64Col(pos=i) for i in range(self.n_extra)}

    def __reduce__(self):
        if not self.picklable:
            import pickle
            raise pickle.PicklingError('this task cannot be pickled')
        return SimTask, (self.vals, self.n_extra, self.with_headers, self.picklable)

    def __deepcopy__(self, memo):
        return SimTask(self.vals, self.n_extra, self.with_headers, self.picklable)

    def checkpoint_save(self, path):
        with (Path(path) / 'saved_task.txt').open('w') as f:
            f.write(repr((self.vals, self.n_extra, self.with_headers, self.picklable)))

    @classmethod
    def checkpoint_load(cls, path):
        import ast
        with (Path(path) / 'saved_task.txt').open('r') as f:
            return cls(*ast.literal_eval(f.read()))


def extras_of(x, n):
    return tuple(round(float(x[0]) + 10.0 * float(x[1]) + i / 8, 6) for i in range(n))


# ------------------------------------------------------------------------------------------- recording

def key(x):
    return tuple(float(v) for v in x)


def instrument():
    """ Wraps the public methods of the optimizer classes so that the world sees what optimizers are told and do. """
    from glompo.optimizers.baseoptimizer import BaseOptimizer
    from glompo.optimizers.random import RandomOptimizer
    from glompo.optimizers.cmawrapper import CMAOptimizer

    def wrap(cls, name, before, after=None):
        real = cls.__dict__[name]

        @functools.wraps(real)
        def method(self, *args, **kwargs):
            before(self, *args, **kwargs)
            r = real(self, *args, **kwargs)
            if after is not None:
                after(self)
            return r

        setattr(cls, name, method)

    wrap(BaseOptimizer, 'message_manager', lambda s, k, m=None: W.on_tx(s, k, m))
    wrap(BaseOptimizer, 'inject', lambda s, x, fx: W.rec('inject', s.opt_id, key(x), float(fx)),
         lambda s: W.rec('incumbent', s.opt_id, incumbent(s)))
    wrap(BaseOptimizer, 'checkpoint_save', lambda s, path='', force=None: W.on_save(s, path))
    for cls in (RandomOptimizer, CMAOptimizer):
        wrap(cls, 'callstop', lambda s, reason='': W.rec('rx_stop', s.opt_id))
        wrap_minimize(cls)


def incumbent(opt):
    try:
        return key(opt.incumbent['x']), float(opt.incumbent['fx'])
    except Exception as e:      # noqa
        return repr(e)


def wrap_minimize(cls):
    real = cls.__dict__['minimize']

    @functools.wraps(real)
    def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
        W.opt_begin(self, x0, bounds, callbacks, kwargs)
        how = 'killed'
        try:
            r = real(self, function, x0, bounds, callbacks, **kwargs)
            how = 'return'
            return r
        except BaseException as e:      # noqa
            how = type(e).__name__
            raise
        finally:
            W.opt_end(self, how)

    cls.minimize = minimize


def define_optimizers():
    """ Scripted optimizers; defined late because glompo must be imported after the simulator is installed. """
    from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult
    g = globals()

    class ScriptedBase(BaseOptimizer):
        def __init__(self, _opt_id=None, _signal_pipe=None, _results_queue=None, _pause_flag=None, workers=1,
                     backend='threads', is_log_detailed=False, tag=None, opts=None, **kwargs):
            super().__init__(_opt_id, _signal_pipe, _results_queue, _pause_flag, workers, backend, is_log_detailed,
                             **kwargs)
            self.n_done = 0
            self.stopped = False
            self.tag = tag
            self.settings = opts
            self.trail = []        # values seen: learned state which must survive a checkpoint
            sc = W.script(_opt_id) if _opt_id is not None else {}
            if sc.get('init_raise'):
                W.rec('user_error', 'optimizer')
                W.sim.count_fault('user_error_optimizer')
                raise RuntimeError('scripted error in __init__')

        def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
            sim = W.sim
            sc = W.script(self.opt_id)
            n = sc.get('n', 5)
            every = sc.get('check_every', 1)
            if self.settings is not None:
                self.settings['touched_by'] = self.opt_id
                W.rec('settings', self.opt_id, repr(sorted(self.settings.items())))
            if callbacks is not None:
                callbacks()
            if sc.get('fail_at') == 0 and not self.is_restart:
                self._fail(sc)
            while self.n_done < n and not (self.stopped and not sc.get('ignore_stop')):
                it = self.n_done
                if sc.get('fail_at') == it and it > 0:
                    if self._fail(sc):
                        return MinimizeResult()
                x = [float(self.opt_id), float(it) * sc.get('step', 1.0)] + [float((self.opt_id * 13 + it * 7 + d * 3) % 100)
                                                       for d in range(W.dims - 2)]
                fx = function(np.array(x)) if not sc.get('x_list') else function(x)
                self.trail.append(fx)
                self.n_done += 1
                if sc.get('print'):
                    W.do_print(self.opt_id, self.n_done, sc)
                if sc.get('log'):
                    W.do_log(self, self.n_done)
                if sc.get('mutate_x'):
                    pass
                if sc.get('msg_at') == it:
                    self.message_manager(9, f'hello from {self.opt_id}')
                if self.n_done % every == 0:
                    if sc.get('pause_first'):
                        self._pause_signal.wait()
                        self.check_messages()
                    else:
                        self.check_messages()
                        self._pause_signal.wait()
            if sc.get('end') == 'raise':
                self._fail({**sc, 'fail': 'raise'})
            if sc.get('end') == 'silent':
                return MinimizeResult()
            if sc.get('linger'):
                sim.sleep(sc['linger'])
            self.message_manager(0, "Optimizer convergence" if not self.stopped else "Optimizer convergence stop")
            if sc.get('end') == 'dieafter':
                W.die(self)
            if sc.get('linger2'):
                sim.sleep(sc['linger2'])
            if not sc.get('no_last_check'):
                self.check_messages()
            r = MinimizeResult()
            return r

        def _fail(self, sc):
            how = sc.get('fail', 'raise')
            W.rec('fail', self.opt_id, how)
            W.sim.count_fault('opt_' + how)
            if how == 'raise':
                raise RuntimeError(f'scripted failure of {self.opt_id}')
            if how == 'kbd':
                raise KeyboardInterrupt()
            if how == 'exit':
                raise SystemExit(sc.get('code', 3))
            if how == 'die':
                W.die(self)
                raise RuntimeError(f'scripted failure of {self.opt_id}')    # threads cannot die
            if how == 'silent':
                return True
            if how == 'hang':
                W.rec('hang', self.opt_id)
                if sc.get('hang_for'):
                    W.sim.sleep(sc['hang_for'])
                else:
                    W.sim.block(None, 'scripted hang')
            return False

        def callstop(self, reason=''):
            W.rec('rx_stop', self.opt_id)
            self.stopped = True

        @classmethod
        def checkpoint_load(cls, path, **kwargs):
            opt = super().checkpoint_load(path, **kwargs)
            W.rec('opt_load', opt.opt_id, cls.__name__, W.opt_state(opt), kwargs.get('workers'))
            return opt

    wrap_minimize(ScriptedBase)
    ScriptedBase.__module__ = __name__
    ScriptedBase.__qualname__ = 'ScriptedBase'
    g['ScriptedBase'] = ScriptedBase
    for name in ('AlphaOpt', 'BetaOpt', 'GammaOpt'):
        g[name] = type(name, (ScriptedBase,), {'__module__': __name__})

    from glompo.convergence import BaseChecker
    from glompo.hunters import BaseHunter
    from glompo.generators import BaseGenerator

    class ProbeChecker(BaseChecker):
        """ Looks at the manager every time exit conditions are tested; never true. """

        def __call__(self, manager):
            W.on_probe(manager)
            if W.sc.get('mng_print') and W.in_run:
                W.n_mng_prints += 1
                W.rec('print_other', 'out', f'[m:{W.n_mng_prints}]')
                print(f'[m:{W.n_mng_prints}]')
            self.last_result = False
            return False

    class RaisingChecker(BaseChecker):
        def __init__(self, at):
            super().__init__()
            self.at = at

        def __call__(self, manager):
            self.last_result = False
            if manager.t_start and manager.f_counter >= self.at:
                W.rec('user_error', 'checker')
                W.sim.count_fault('user_error_checker')
                raise ZeroDivisionError('scripted checker error')
            return False

    class ProbeHunter(BaseHunter):
        def __call__(self, log, hunter_opt_id, victim_opt_id):
            W.on_hunt(log, hunter_opt_id, victim_opt_id)
            self.last_result = True
            return True

    class ScriptHunter(BaseHunter):
        """ Kills by number: victim iff its logged evaluations reached a threshold of its own. """

        def __init__(self, thresholds):
            super().__init__()
            self.thresholds = thresholds

        def __call__(self, log, hunter_opt_id, victim_opt_id):
            th = self.thresholds[victim_opt_id % len(self.thresholds)]
            self.last_result = bool(th) and log.len(victim_opt_id) >= th
            return self.last_result

    class RaisingHunter(BaseHunter):
        def __init__(self, at):
            super().__init__()
            self.at = at

        def __call__(self, log, hunter_opt_id, victim_opt_id):
            self.last_result = False
            if len(log) >= self.at:
                W.rec('user_error', 'hunter')
                W.sim.count_fault('user_error_hunter')
                raise ZeroDivisionError('scripted hunter error')
            return False

    class SeqGenerator(BaseGenerator):
        """ A generator of unique, attributable points. """

        def __init__(self, bounds, fail_at=None):
            super().__init__()
            self.dim = len(bounds)
            self.count = 0
            self.fail_at = fail_at

        def generate(self, manager):
            self.count += 1
            if self.fail_at and self.count >= self.fail_at:
                W.rec('user_error', 'generator')
                W.sim.count_fault('user_error_generator')
                raise ZeroDivisionError('scripted generator error')
            x = np.array([float(self.count)] * self.dim)
            W.rec('generate', key(x))
            return x

    for c in (ProbeChecker, RaisingChecker, ProbeHunter, ScriptHunter, RaisingHunter, SeqGenerator):
        c.__module__ = __name__
        c.__qualname__ = c.__name__
        g[c.__name__] = c


class SpawnProbe:
    """ Spawn control which records what it was asked and answered. """

    def __init__(self, inner):
        self.inner = inner

    def __call__(self, mng):
        r = self.inner(mng) if self.inner is not None else True
        W.rec('spawn_asked', mng.f_counter, mng.o_counter, bool(r))
        if W.sess.get('selector', {}).get('raise_at') is not None and \
                mng.t_start and mng.o_counter >= W.sess['selector']['raise_at']:
            W.rec('user_error', 'selector')
            W.sim.count_fault('user_error_selector')
            raise ZeroDivisionError('scripted selector error')
        return r


class Tagger:
    """ Callback with a state of its own, to see whether optimizers share it. """

    def __init__(self):
        self.calls = 0

    def __call__(self):
        self.calls += 1
        W.rec('callback', self.calls)
        return False


# ------------------------------------------------------------------------------------------------ world

def _user_work(n, times, err, every):
    for k in range(times):
        W.rec('print_other', 'err' if err else 'out', f'[u{n}:{k}]')
        print(f'[u{n}:{k}]', file=sys.stderr if err else sys.stdout)
        W.sim.sleep(every)


class World:
    def __init__(self, scenario, choice, scratch):
        self.sc = scenario
        self.choice = choice
        self.scratch = Path(scratch)
        self.dims = scenario.get('dims', 2)
        self.sim = Sim(choice, jitter=scenario.get('jitter', 1), base_cost=scenario.get('base_cost', 2e-5),
                       idle_time=scenario.get('idle_time', 4000.0))
        s = self.sim
        s.fd_mode = scenario.get('fd', 'refcount')
        s.ident_reuse = scenario.get('ident_reuse', False)
        s.shuffle_dirs = scenario.get('shuffle_dirs', False)
        s.on_event.append(self._triggers)
        s.disk = Disk(self.scratch)
        self.events = s.events
        self.sess = None
        self.sess_i = -1
        self.sessions = []       # outcome of every session
        self.warnings = []
        self.live_opts = {}      # opt_id -> info of the running instance
        self.snapshots = []
        self.manager = None
        self.mng_task = None
        self.crashed = False
        self.eval_count = 0
        self.counts = {}
        self.pending = []
        self.in_run = False
        self.stdout_log = []
        self.split_records = []
        self.n_mng_prints = self.n_user_threads = 0
        self.hunt_obs = []
        self.ckpt_obs = []
        self.log_records = []
        self.alive_children = {}
        self.violations = []     # found while running: (property, message)

    # ---------------------------------------------------------------- recording
    def rec(self, kind, *data):
        return self.sim.record(kind, *data)

    def script(self, opt_id):
        scripts = self.sc['opts']
        return scripts[(opt_id - 1) % len(scripts)]

    def opt_begin(self, opt, x0, bounds, callbacks, kwargs):
        sim = self.sim
        oid = opt.opt_id
        sim.current.label = f'Opt{oid}'
        sc = self.script(oid)
        speeds = self.sc.get('opt_speed') or [1.0]
        sim.current.speed = speeds[oid % len(speeds)]
        self.live_opts[oid] = {'task': sim.current, 'proc': sim.current.proc}
        self.rec('opt_begin', oid, type(opt).__name__, opt.workers, key(x0), bool(opt.is_restart),
                 self.opt_state(opt), repr(sorted(kwargs.items())))
        self.rec('opt_pipe', oid, getattr(getattr(opt, '_signal_pipe', None), 'name', None))
        sim.progress()

    @staticmethod
    def opt_state(opt):
        for a in ('n_done', 'used_iters'):
            if hasattr(opt, a):
                st = [a, getattr(opt, a)]
                if hasattr(opt, 'trail'):
                    st.append(tuple(opt.trail))
                if hasattr(opt, 'tag'):
                    st.append(opt.tag)
                return tuple(st)
        es = getattr(opt, 'es', None)
        return ('es', None if es is None else (es.countiter, es.countevals, round(float(es.sigma), 12)))

    def opt_end(self, opt, how):
        if self.sim.current is not None and self.sim.current.alive:
            self.live_opts.pop(opt.opt_id, None)
            self.rec('opt_end', opt.opt_id, how)
            self.sim.progress()

    def on_tx(self, opt, k, m):
        self.rec('tx', opt.opt_id, k)
        sc = self.script(opt.opt_id)
        if k == 0 and sc.get('pre_conv_delay'):
            self.sim.sleep(sc['pre_conv_delay'])

    def on_save(self, opt, path):
        sc = self.script(opt.opt_id)
        self.rec('opt_save', opt.opt_id, Path(path).name, self.opt_state(opt))
        if sc.get('save_slow'):
            self.sim.sleep(sc['save_slow'])
        f = sc.get('save_fail')
        if f:
            self.sim.count_fault('opt_save_' + f)
            if f == 'raise':
                raise RuntimeError('scripted error while saving')
            if f == 'die':
                self.die(opt)
                raise RuntimeError('scripted error while saving')

    def die(self, opt):
        """ The process of the optimizer is killed by the system. """
        proc = self.sim.current.proc
        if proc is not self.sim.main_proc and not self.sim.current.server:
            self.sim.count_fault('child_killed')
            self.rec('died', opt.opt_id)
            self.sim.call_at(self.sim.now, lambda: proc.exit(-9))
            self.sim.sleep(1.0)

    def opt_of_task(self):
        lab = self.sim.current.label
        if lab and lab.startswith('Opt'):
            return int(lab[3:])
        return 0

    def evaluate(self, task, x, detailed):
        sim = self.sim
        oid = self.opt_of_task()
        sc = self.script(oid) if oid else {}
        self.eval_count += 1
        n = self.eval_count
        kx = key(x)
        d = sc.get('dur', 1e-3)
        burst = sc.get('burst')
        if burst and (n // burst) % 2:
            d = d * 0.001
        slow = sc.get('slow_at')
        if slow and sc.get('slow_n', 0) == self.counts.get(('ev', oid), 0):
            d = slow
        self.counts[('ev', oid)] = self.counts.get(('ev', oid), 0) + 1
        self.rec('eval_start', oid, kx)
        sim.sleep(min(d * sim.jitter[self.choice.draw(64)], 20.0) if sc.get("dur_jitter", True) and d < 1 else d)
        fx = fval(kx, task.vals)
        if sc.get('nan_every') and self.counts[('ev', oid)] % sc['nan_every'] == 0 or \
                self.counts[('ev', oid)] <= sc.get('nan_first', 0):
            fx = float('nan')
        ex = extras_of(kx, task.n_extra) if detailed else ()
        self.rec('eval', oid, kx, fx, ex)
        sim.progress()
        return (fx,) + ex

    def do_print(self, oid, k, sc):
        msg = f'<{oid}:{k}>'
        if sc.get('print') == 'err':
            self.rec('print', oid, 'err', msg + 'e')
            print(msg + 'e', file=sys.stderr)
        else:
            self.rec('print', oid, 'out', msg)
            print(msg)

    @staticmethod
    def user_thread(n, e):
        """ A thread of the program which runs the manager and has nothing to do with it. """
        args = (n, e.get('n', 3), bool(e.get('err')), e.get('every', .01))
        return lambda: threading.Thread(target=_user_work, args=args, name=f'user{n}', daemon=True).start()

    def do_log(self, opt, k):
        msg = f'log-{opt.opt_id}-{k}'
        opt.logger.warning(msg)
        self.rec('logged', opt.opt_id, msg)

    # ------------------------------------------------------------ observation of the manager
    def on_probe(self, m):
        r = m.result
        self.snapshots.append({
            'seq': len(self.events), 't': self.sim.now, 'sess': self.sess_i,
            'started': m.t_start is not None and self.in_run, 'f': m.f_counter, 'o': m.o_counter,
            'conv': m.conv_counter, 'kills': len(m.hunt_victims), 'victims': sorted(m.hunt_victims),
            'hunts': m.hunt_counter, 'fx': r.fx, 'x': None if r.x is None else key(r.x),
            'origin': dict(r.origin) if r.origin else None, 't_used': m.t_used, 't_start': m.t_start,
            'spawning': m.spawning_opts, 'wall': osim._time(), 'n_log': len(m.opt_log)})
        if len(self.snapshots) > 1:
            a = self.snapshots[-2]
            b = self.snapshots[-1]
            if (a['f'], a['o'], a['conv'], a['kills']) != (b['f'], b['o'], b['conv'], b['kills']):
                self.sim.progress()

    def on_hunt(self, log, h, v):
        self.hunt_obs.append({'seq': len(self.events), 't': self.sim.now, 'sess': self.sess_i, 'hunter': h, 'victim': v,
                              'f': len(log), 'fxs': [float(f) for f in log.get_history(v, 'fx')],
                              'lens': {}})
        self.rec('hunt_eval', h, v, len(log))

    # ---------------------------------------------------------------------------------- user and fault events
    def arm(self, events):
        self.pending = [dict(e) for e in events]
        self.counts = {k: v for k, v in self.counts.items() if k[0] == 'ev'}
        for e in list(self.pending):
            if e.get('on', 'time') == 'time':
                self.pending.remove(e)
                self.sim.call_at(self.sim.now + e.get('delay', 0.0), functools.partial(self.fire, e, self.sess_i))

    def _triggers(self, ev):
        if not self.pending:
            return
        kind = ev[2]
        for e in self.pending:
            if e['on'] == kind and (e.get('opt') is None or len(ev) > 3 and ev[3] == e['opt']) \
                    and (e.get('arg') is None or len(ev) > 4 and ev[4] == e['arg']):
                e['_n'] = e.get('_n', 0) + 1
                if e['_n'] >= e.get('count', 1):
                    self.pending.remove(e)
                    self.sim.call_at(self.sim.now + e.get('delay', 0.0), functools.partial(self.fire, e, self.sess_i))
                    break

    def fire(self, e, sess_i):
        if sess_i != self.sess_i or self.crashed or self.mng_done():
            return
        sim = self.sim
        act = e['act']
        wd = self.work_dir()
        if act in ('stop_file', 'file'):
            name = e.get('name') or f"STOP_{e['target']}"
            try:
                wd.mkdir(parents=True, exist_ok=True)
                with REAL['open'](str(wd / name), 'w') as f:
                    f.write(e.get('content', ''))
            except OSError:
                return
            sim.count_fault('user_file')
            self.rec('file_put', name, self.alive_ids())
        elif act == 'rm_file':
            try:
                REAL['os.unlink'](str(wd / e['name']))
                self.rec('file_gone', e['name'])
            except OSError:
                pass
        elif act == 'sigkill':
            info = self.live_opts.get(e['target'])
            if info and info['proc'] is not sim.main_proc and info['proc'].exitcode is None:
                self.rec('sigkill', e['target'])
                sim.count_fault('child_killed')
                info['proc'].exit(-9)
        elif act == 'sigkill_any':
            ids = sorted(i for i, inf in self.live_opts.items()
                         if inf['proc'] is not sim.main_proc and inf['proc'].exitcode is None)
            if ids:
                i = ids[e.get('k', 0) % len(ids)]
                self.rec('sigkill', i)
                sim.count_fault('child_killed')
                self.live_opts[i]['proc'].exit(-9)
        elif act == 'interrupt':
            self.rec('interrupt_sent')
            sim.interrupt(self.mng_task, KeyboardInterrupt(), gate=self.in_wide if e.get('wide') else self.in_try)
            if e.get('group'):          # a terminal sends it to all processes
                for i in sorted(self.live_opts):
                    inf = self.live_opts[i]
                    if inf['proc'] is not sim.main_proc and inf['proc'].exitcode is None:
                        self.rec('fail', i, 'interrupt')
                        sim.count_fault('child_interrupted')
                        sim.interrupt(inf['task'], KeyboardInterrupt())
        elif act == 'clock':
            sim.wall_offset += e['by']
            sim.count_fault('clock_jump')
            self.rec('clock', e['by'])
        elif act == 'stall':
            ids = sorted(self.live_opts)
            tgt = self.mng_task if e.get('target') == 'manager' or not ids else \
                self.live_opts[ids[e.get('k', 0) % len(ids)]]['task']
            f = e.get('factor', 3000.0)
            tgt.speed *= f
            sim.count_fault('stall')
            self.rec('stall', tgt.label)

            def undo():
                tgt.speed /= f
            sim.call_at(sim.now + e.get('for', 1.0), undo)
        elif act == 'user_thread':
            self.n_user_threads += 1
            sim.spawn(self.user_thread(self.n_user_threads, e), 'user', proc=sim.main_proc, label='user', speed=1.0)
        elif act == 'crash':
            self.crash('event')
        elif act == 'disk':
            self.set_disk(e)
        else:
            raise ValueError(act)

    stop_done = None

    def in_wide(self):
        """ As in_try, and while optimizers are started for the first time or stopped at the end of a regular run. """
        m = self.manager
        return bool(self.in_run and m is not None and m.t_start is not None and self.stop_done != self.sess_i
                    and not any(e[2] in ('user_error', 'generate_error') for e in self.events[self.sessions[-1]['seq0']:])
                    and not any('Optimization failed' in x[3] for x in self.warnings if x[1] == self.sess_i))

    def in_try(self):
        """ True while start_manager is in the part of its work which documents that interrupts are handled. """
        m = self.manager
        return bool(self.in_run and m is not None and m.t_start is not None and not m.converged
                    and not any(e[2] in ('user_error', 'generate_error') for e in self.events[self.sessions[-1]['seq0']:])
                    and not any('Optimization failed' in x[3] for x in self.warnings if x[1] == self.sess_i)
                    and any(s['sess'] == self.sess_i and s['started'] for s in self.snapshots[-1:]))

    def alive_ids(self):
        return tuple(sorted(i for i, inf in self.live_opts.items()
                            if inf['task'].alive and inf['proc'].exitcode is None))

    def mng_done(self):
        return self.mng_task is None or not self.mng_task.alive

    cur_work = 'work'

    def work_dir(self):
        return self.scratch / (self.sess.get('working_dir') or self.cur_work)

    def ckpt_dir(self):
        return self.scratch / 'ckpts'

    def list_ckpts(self):
        try:
            return sorted(n for n in REAL['os.listdir'](str(self.ckpt_dir())) if n.endswith('.tar.gz'))
        except OSError:
            return []

    def ckpt_sigs(self):
        out = {}
        for n in self.list_ckpts():
            try:
                st = os.stat(str(self.ckpt_dir() / n))
                out[n] = (st.st_size, st.st_ino, st.st_mtime_ns)
            except OSError:
                pass
        return out

    def opt_loggers(self):
        return [n for n in logging.Logger.manager.loggerDict if n.startswith('glompo.optimizers.opt')]

    # ------------------------------------------------------------------------------------------ disk faults
    def set_disk(self, plan):
        """ plan: {'k': first operation (from now), 'n': how many, 'what': enospc|eio|short|crash, 'where': substring,
        'kinds': [...]} """
        disk = self.sim.disk
        state = {'seen': 0}
        where, kinds = plan.get('where', 'ckpts'), plan.get('kinds')

        def decide(n, kind, path):
            if where not in path or (kinds and kind not in kinds) or kind == 'open_r':
                return None
            if plan.get('only_manager', True) and self.sim.current is not self.mng_task:
                return None
            state['seen'] += 1
            i = state['seen']
            if i < plan.get('k', 1) or i >= plan.get('k', 1) + plan.get('n', 1):
                return None
            if plan['what'] == 'short':
                return 'short' if kind == 'write' else None
            return plan['what']

        disk.plan = decide
        disk.crash_hook = lambda kind, path, before: self.crash(f'{kind}')

    def crash(self, why):
        """ The manager's process is killed here and now; what reached the files stays. """
        if self.crashed or self.mng_done():
            return
        self.crashed = True
        self.rec('crash', why)
        self.sim.count_fault('manager_crash')
        self.sim.stop_flag = True
        if self.sim.current is not None:
            # leave the task where it is, for ever
            t = self.sim.current
            t.alive = False
            self.sim.live.pop(t.id, None)
            self.sim.hub.switch()
