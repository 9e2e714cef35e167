"""Runs one scenario: builds the real manager(s) the scenario describes and executes them inside the simulator."""
import zlib
import functools
import gc
import io
import logging
import os
import random
import shutil
import sys
import tarfile
import tempfile
import threading
import traceback
import warnings
from pathlib import Path

from . import osim, workload as wl
from .core import Sim, Choice, Stuck
from .osim import REAL, SimProc

G = {}        # glompo modules, filled by boot()


class RecStream:
    """ Standard output/error of a simulated process. """

    def __init__(self, which):
        self.which = which
        self.encoding = 'utf-8'

    def write(self, msg):
        w = wl.W
        if w is not None and w.sim.current is not None and msg:
            w.stdout_log.append((len(w.events), self.which, w.sim.current.label or w.sim.current.name, msg))
        return len(msg)

    def flush(self):
        pass

    def __deepcopy__(self, memo):
        return self


def boot(repo='/repo'):
    """ Installs the simulator and imports glompo (once per process). """
    if G:
        return G
    import matplotlib.font_manager      # noqa  may build its cache, using threads
    osim.install()
    sys.path.insert(0, repo)
    from . import astyield
    astyield.install(repo)
    import numpy as np
    import tables as tb
    import yaml
    import glompo
    assert Path(glompo.__file__).resolve().is_relative_to(Path(repo).resolve()) \
        if hasattr(Path, 'is_relative_to') else str(Path(glompo.__file__).resolve()).startswith(repo)
    osim.stub_psutil()
    import glompo.convergence as conv
    import glompo.hunters as hunters
    import glompo.opt_selectors as sels
    import glompo.opt_selectors.spawncontrol as spawn
    import glompo.generators as gens
    from glompo.core.manager import GloMPOManager
    from glompo.core.checkpointing import CheckpointingControl
    from glompo.core import optimizerlogger as ol
    from glompo.core._backends import ChunkingQueue
    from glompo.optimizers.random import RandomOptimizer
    from glompo.optimizers.cmawrapper import CMAOptimizer
    from glompo.core.optimizerlogger import BaseLogger, FileLogger
    from glompo.common import helpers as glog
    G.update(nested=glog.nested_string_formatting, np=np, tb=tb, yaml=yaml, glompo=glompo, conv=conv, hunters=hunters, sels=sels, spawn=spawn, gens=gens,
             GloMPOManager=GloMPOManager, CheckpointingControl=CheckpointingControl, RandomOptimizer=RandomOptimizer,
             CMAOptimizer=CMAOptimizer, BaseLogger=BaseLogger, FileLogger=FileLogger, ChunkingQueue=ChunkingQueue,
             glog=glog)
    wl.instrument()
    wl.define_optimizers()
    instrument_logger(BaseLogger, FileLogger)
    instrument_manager(GloMPOManager)
    logging.disable(logging.NOTSET)
    root = logging.getLogger('glompo')
    root.propagate = False
    root.addHandler(logging.NullHandler())
    tb.parameters.PYTABLES_SYS_ATTRS = tb.parameters.PYTABLES_SYS_ATTRS
    import multiprocessing.util as mpu
    return G


def instrument_logger(BaseLogger, FileLogger):
    """ Records what is handed to the iteration log (public methods only, outermost call). """
    depth = [0]

    def wrap(cls, name, rec):
        if name not in cls.__dict__:
            return
        real = cls.__dict__[name]

        @functools.wraps(real)
        def method(self, *args, **kwargs):
            w = wl.W
            if w is None or w.sim.current is None or depth[0]:
                return real(self, *args, **kwargs)
            depth[0] += 1
            try:
                r = real(self, *args, **kwargs)
            finally:
                depth[0] -= 1
            rec(w, *args, **kwargs)
            return r

        setattr(cls, name, method)

    def it(w, res):
        w.rec('log_iter', res.opt_id, wl.key(res.x), float(res.fx))

    def meta(w, oid, k, v):
        if k in ('end_cond', 't_stop'):
            w.rec('log_meta', oid, k, str(v) if k == 'end_cond' else '')

    def msg(w, oid, m):
        w.rec('log_msg', oid, str(m)[:160] + ' ... ' + str(m)[-300:] if len(str(m)) > 460 else str(m))

    def opt(w, oid, typ, *a):
        w.rec('log_opt', oid, typ)

    for cls in (BaseLogger, FileLogger):
        wrap(cls, 'put_iteration', it)
        wrap(cls, 'put_metadata', meta)
        wrap(cls, 'put_message', msg)
        wrap(cls, 'add_optimizer', opt)


def instrument_manager(M):
    stop = M.__dict__.get('_stop_all_children')
    if stop is not None:        # only used to aim interrupts at the end of a run

        @functools.wraps(stop)
        def stop_all(self, *args, **kwargs):
            try:
                return stop(self, *args, **kwargs)
            finally:
                if wl.W is not None:
                    wl.W.stop_done = wl.W.sess_i

        M._stop_all_children = stop_all

    real = M.__dict__['checkpoint']

    @functools.wraps(real)
    def checkpoint(self, *args, **kwargs):
        w = wl.W
        if w is None or w.sim.current is None:
            return real(self, *args, **kwargs)
        names = w.list_ckpts()
        if w.sess.get('listing', True):
            w.ckpt_before = names
        cid = len(w.ckpt_obs)
        w.ckpt_name = None
        obs = {'id': cid, 'sess': w.sess_i, 'seq0': len(w.events), 't0': w.sim.now, 'f0': self.f_counter,
               'before': names, 'started': self.t_start is not None, 'converged': bool(self.converged),
               'alive0': w.alive_ids(), 'wall0': osim._time(), 'exc': None, 'seq1': None,
               'work': Path(self.working_dir).name, 'sig0': w.ckpt_sigs(), 'sig1': None, 'name': None, 'keep': self.checkpoint_control.keep_past,
               'format': self.checkpoint_control.naming_format}
        cdir = str(self.checkpoint_control.checkpointing_dir)
        obs['own_dir'] = cdir == str(w.ckpt_dir())
        obs['entries'] = sorted(REAL['os.listdir'](cdir)) if os.path.isdir(cdir) else []
        w.ckpt_obs.append(obs)
        w.rec('ckpt_begin', cid, self.f_counter)
        for e in w.sess.get('on_ckpt', []):
            if e.get('n_ckpt', e.get('n', 0)) == sum(1 for o in w.ckpt_obs if o['sess'] == w.sess_i) - 1:
                if e['act'] == 'disk':
                    w.set_disk(e)
                else:
                    w.sim.call_at(w.sim.now + e.get('delay', 0.0), functools.partial(w.fire, e, w.sess_i))
        try:
            return real(self, *args, **kwargs)
        except BaseException as e:      # noqa
            obs['exc'] = f'{type(e).__name__}: {e}'[:300]
            raise
        finally:
            if w.sim.current is not None and w.sim.current.alive and not w.crashed:
                w.sim.disk.plan = None if not w.sess.get('disk_always') else w.sim.disk.plan
                obs['seq1'] = len(w.events)
                obs['t1'] = w.sim.now
                obs['wall1'] = osim._time()
                obs['f1'] = self.f_counter
                obs['o1'] = self.o_counter
                obs['after'] = w.list_ckpts()
                obs['there'] = os.path.isfile(os.path.join(cdir, f'{w.ckpt_name}.tar.gz'))
                obs['sig1'] = w.ckpt_sigs()
                obs['name'] = w.ckpt_name
                obs['new'] = obs['sig1'].get(f'{w.ckpt_name}.tar.gz') not in (None, obs['sig0'].get(f'{w.ckpt_name}.tar.gz'))
                obs['alive1'] = w.alive_ids()
                r = self.result
                obs['fx'] = r.fx
                obs['x'] = None if r.x is None else wl.key(r.x)
                obs['victims'] = sorted(self.hunt_victims)
                obs['conv'] = self.conv_counter
                obs['hunts'] = self.hunt_counter
                obs['history'] = sorted(Path(p).name for p in self.checkpoint_history)
                w.rec('ckpt_end', cid, obs['exc'], tuple(sorted(set(obs['after']) - set(names))))

    M.checkpoint = checkpoint
    C = G['CheckpointingControl']
    real_name = C.__dict__['get_name']

    @functools.wraps(real_name)
    def get_name(self):
        n = real_name(self)
        if wl.W is not None and wl.W.sim.current is not None:
            wl.W.ckpt_name = n
            if wl.W.ckpt_obs and wl.W.ckpt_obs[-1]['seq1'] is None:
                wl.W.ckpt_obs[-1]['name'] = n
        return n

    C.get_name = get_name


# ------------------------------------------------------------------------------------------------ builders

def build_checker(spec):
    c = G['conv']
    kind, args = spec[0], spec[1:]
    if kind == 'or':
        return build_checker(args[0]) | build_checker(args[1])
    if kind == 'and':
        return build_checker(args[0]) & build_checker(args[1])
    if kind == 'MaxSeconds':
        return c.MaxSeconds(**args[0])
    if kind == 'Raising':
        return wl.RaisingChecker(*args)
    return getattr(c, kind)(*args)


def build_hunter(spec, bounds):
    h = G['hunters']
    kind, args = spec[0], spec[1:]
    if kind == 'or':
        return build_hunter(args[0], bounds) | build_hunter(args[1], bounds)
    if kind == 'and':
        return build_hunter(args[0], bounds) & build_hunter(args[1], bounds)
    if kind in ('ScriptHunter', 'RaisingHunter'):
        return getattr(wl, kind)(*args)
    if kind in ('ParameterDistance', 'StepSize'):
        return getattr(h, kind)(bounds, *args)
    if kind == 'TypeHunter':
        return h.TypeHunter(opt_class(args[0]))
    return getattr(h, kind)(*args)


def opt_class(name):
    return {'random': G['RandomOptimizer'], 'cma': G['CMAOptimizer'], 'A': wl.AlphaOpt, 'B': wl.BetaOpt,
            'C': wl.GammaOpt}[name]


def build_selector(spec):
    entries = []
    for e in spec['entries']:
        name, init, call = e[0], e[1], e[2]
        init = None if init is None else dict(init)
        call = None if call is None else dict(call)
        if call and 'callbacks' in call:
            call['callbacks'] = wl.Tagger()
        if init is None and call is None and e[3:] == ['bare']:
            entries.append(opt_class(name))
        else:
            entries.append((opt_class(name), init, call))
    sp = spec.get('spawn')
    inner = None
    if sp:
        inner = {'evals': G['spawn'].IterSpawnStop, 'opts': G['spawn'].NOptimizersSpawnStop}[sp[0]](sp[1])
    allow = wl.SpawnProbe(inner)
    S = G['sels']
    if spec['type'] == 'cycle':
        return S.CycleSelector(*entries, allow_spawn=allow)
    if spec['type'] == 'random':
        return S.RandomSelector(*entries, allow_spawn=allow)
    return S.ChainSelector(*entries, fcall_thresholds=list(spec['thresholds']), allow_spawn=allow)


def build_generator(spec, bounds):
    g = G['gens']
    kind, args = spec[0], spec[1:]
    if kind == 'seq':
        return wl.SeqGenerator(bounds, *args)
    if kind in ('RandomGenerator', 'IncumbentGenerator'):
        return RecGen.wrap(getattr(g, kind)(bounds))
    if kind == 'SinglePointGenerator':
        return RecGen.wrap(g.SinglePointGenerator(bounds, *args))
    if kind == 'ExploitExploreGenerator':
        return RecGen.wrap(g.ExploitExploreGenerator(bounds, *args))
    if kind == 'BasinHoppingGenerator':
        return RecGen.wrap(g.BasinHoppingGenerator(*args))
    raise ValueError(kind)


class RecGen:
    """ Records what a generator returns, on the instance. """

    @staticmethod
    def wrap(gen):
        cls = type(gen)
        sub = RecGen._subs.get(cls)
        if sub is None:
            def generate(self, manager, _real=cls.generate):
                r = manager.result
                best = None if r is None or r.x is None else wl.key(r.x)
                try:
                    x = _real(self, manager)
                except Exception as e:
                    wl.W.rec('generate_error', cls.__name__, repr(e))
                    raise
                wl.W.rec('generate', wl.key(x), cls.__name__, best, manager.f_counter)
                return x
            sub = type(cls.__name__, (cls,), {'generate': generate, '__module__': __name__})
            RecGen._subs[cls] = sub
            globals()['Rec' + cls.__name__] = sub
            sub.__qualname__ = 'Rec' + cls.__name__
        gen.__class__ = sub
        return gen

    _subs = {}


def build_ckpt(spec, world):
    kw = dict(spec)
    for k in ('checkpoint_time_frequency', 'checkpoint_iter_frequency'):
        if kw.get(k) is None:
            kw.pop(k, None)
    return G['CheckpointingControl'](checkpointing_dir=world.ckpt_dir(), **kw)


def bounds_of(world):
    return [tuple(b) for b in world.sc.get('bounds', [(0.0, 100.0)] * world.dims)]


def build_task(world):
    t = world.sc['task']
    return wl.SimTask(t['vals'], t.get('n_extra', 0), t.get('headers', False), t.get('picklable', True))


def setup_kwargs(world, sess):
    bounds = bounds_of(world)
    checker = wl.ProbeChecker() | build_checker(sess['checker']) if sess.get('checker') else None
    hunter = None
    if sess.get('hunter'):
        hunter = wl.ProbeHunter() & build_hunter(sess['hunter'], bounds)
    kw = dict(task=build_task(world), bounds=bounds, opt_selector=build_selector(sess['selector']),
              working_dir=world.work_dir(), overwrite_existing=sess.get('overwrite', False),
              max_jobs=sess['max_jobs'], backend=sess['backend'], convergence_checker=checker,
              x0_generator=build_generator(sess['generator'], bounds) if sess.get('generator') else None,
              killing_conditions=hunter,
              share_best_solutions=sess.get('share', False), hunt_frequency=sess.get('hunt_freq', 100),
              status_frequency=sess.get('status_freq', 600),
              checkpoint_control=build_ckpt(sess['ckpt'], world) if sess.get('ckpt') else None,
              summary_files=sess.get('sf', 0), is_log_detailed=sess.get('detailed', False),
              force_terminations_after=sess.get('force_after', -1), aggressive_kill=sess.get('aggressive', False),
              end_timeout=sess.get('end_timeout'), split_printstreams=sess.get('split', False))
    return kw


def task_loader(path):
    return wl.SimTask.checkpoint_load(path)


def load_kwargs(world, sess):
    ov = dict(sess.get('overrides') or {})
    bounds = bounds_of(world)
    kw = {}
    for k, v in ov.items():
        if k == 'convergence_checker':
            kw[k] = wl.ProbeChecker() | build_checker(v)
        elif k == 'working_dir':
            kw[k] = world.scratch / v
        elif k == 'checkpoint_control':
            kw[k] = build_ckpt(v, world) if v else None
        elif k == 'killing_conditions':
            kw[k] = wl.ProbeHunter() & build_hunter(v, bounds) if v else None
        else:
            kw[k] = v
    t = sess.get('task_from', 'none')
    if t in ('loader', 'both'):
        kw['task_loader'] = task_loader
    if t in ('direct', 'both'):
        kw['task'] = build_task(world)
    return kw


# ------------------------------------------------------------------------------------------------ execution

class Outcome(dict):
    __getattr__ = dict.get


def run_scenario(sc, choice, base_tmp=None, trace=False):
    """ Executes a scenario; returns the World with everything recorded. """
    boot()
    np = G['np']
    scratch = tempfile.mkdtemp(prefix='gs_', dir=base_tmp)
    gc.collect()
    gc.disable()
    w = wl.World(sc, choice, scratch)
    wl.set_world(w)
    sim = w.sim
    Sim.cur = sim
    random.seed(sc.get('seed', 0))
    np.random.seed(sc.get('seed', 0) % (2 ** 32))
    old_tmp = tempfile.tempdir
    os.makedirs(os.path.join(scratch, 'tmp'))
    tempfile.tempdir = os.path.join(scratch, 'tmp')
    tempfile._name_sequence = None
    old_show = warnings.showwarning
    old_umask = None

    def show(message, category, filename, lineno, file=None, line=None):
        w.warnings.append((len(w.events), w.sess_i, category.__name__, str(message)[:2000]))

    handler = RecHandler(w)
    glog = logging.getLogger('glompo')
    cwd = os.getcwd()
    real_cwd_dir = os.path.join(scratch, 'cwd')
    os.makedirs(real_cwd_dir)
    os.chdir(real_cwd_dir)
    old_hook = threading.excepthook
    old_exhook = sys.excepthook
    threading.excepthook = lambda args: None
    try:
        with warnings.catch_warnings():
            warnings.showwarning = show
            warnings.simplefilter('always')
            lvl = sc.get('log_level')
            glog.setLevel(getattr(logging, lvl) if lvl else logging.CRITICAL + 1)
            if lvl:
                glog.addHandler(handler)
            for i, sess in enumerate(sc['sessions']):
                run_session(w, i, sess)
                if w.sessions[-1].get('abort'):
                    break
    finally:
        threading.excepthook = old_hook
        os.chdir(cwd)
        glog.removeHandler(handler)
        for lg in list(w.opt_loggers()):
            pass
        warnings.showwarning = old_show
        sim.end()
        Sim.cur = None
        tempfile.tempdir = old_tmp
        close_tables()
        threading._active.clear()
        threading._limbo.clear()
        threading._shutdown_locks.clear() if hasattr(threading, '_shutdown_locks') else None
        osim._sentinels.clear()
        wl.set_world(None)
        w.final_listing = w.sessions[-1].get('listing') if w.sessions else None
        if not sc.get('keep_scratch'):
            shutil.rmtree(scratch, ignore_errors=True)
        logging.Logger.manager.loggerDict = {k: v for k, v in logging.Logger.manager.loggerDict.items()
                                             if not k.startswith('glompo.optimizers.opt')}
        gc.enable()
    return w


class RecHandler(logging.Handler):
    def __init__(self, w, to=None):
        super().__init__()
        self.w = w
        self.to = w.log_records if to is None else to
        self.lock = None

    def createLock(self):
        self.lock = None

    def emit(self, record):
        try:
            self.to.append((len(self.w.events), record.name, record.levelname, record.getMessage()[:500]))
        except Exception as e:      # noqa  a record which cannot be formatted is a defect of its author
            self.to.append((len(self.w.events), record.name, 'BAD', repr(e)))


def close_tables():
    tb = G['tb']
    from tables.file import _open_files
    for h in list(_open_files.handlers):
        try:
            h.close()
        except Exception:       # noqa
            pass


def snapshot_tree(root):
    out = {}
    root = str(root)
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            try:
                with REAL['open'](p, 'rb') as h:
                    data = h.read()
                out[os.path.relpath(p, root)] = (len(data), zlib.crc32(data))
            except OSError:
                pass
    return out


def run_session(w, i, sess):
    sim = w.sim
    w.sess_i, w.sess = i, sess
    w.manager = None
    w.in_run = False
    w.crashed = False
    sim.stop_flag = False
    w.live_opts = {}
    o = Outcome(kind=sess.get('kind', 'new'), seq0=len(w.events), t0=sim.now)
    w.sessions.append(o)
    for name, content in (sess.get('pre_files') or {}).items():
        p = w.scratch / name
        p.parent.mkdir(parents=True, exist_ok=True)
        with REAL['open'](str(p), 'w') as f:
            f.write(content)
    o['pre_tree'] = snapshot_tree(w.scratch)
    target = None
    if o.kind == 'load':
        target = pick_checkpoint(w, sess)
        if target is None:
            o['skipped'] = 'no checkpoint to load'
            o['abort'] = True
            return
        o['target'] = target
        made = [c for c in w.ckpt_obs if c['name'] is not None and f"{c['name']}.tar.gz" == target.name]
        w.cur_work = (sess.get('overrides') or {}).get('working_dir') or (made[-1]['work'] if made else 'work')
    else:
        w.cur_work = 'work'
    o['work'] = str(w.work_dir())
    if sess.get('fresh_work'):
        shutil.rmtree(str(w.work_dir()), ignore_errors=True)
    out, err = RecStream('out'), RecStream('err')
    if sess.get('same_proc') and getattr(w, 'prev_streams', None):
        out, err = w.prev_streams       # the run before took place in the same process
    proc = sim.main_proc = SimProc(sim, f'main{i}', out, err)
    sim.disk.plan = None
    sim.progress()
    w.rec('session', i, o.kind)

    def body():
        M = G['GloMPOManager']
        m = None
        try:
            m = w.manager = M()
            if o.kind == 'load':
                m.load_checkpoint(target, **load_kwargs(w, sess))
                o['loaded'] = public_state(m, w)
            else:
                m.setup(**setup_kwargs(w, sess))
            w.rec('initialised', i)
        except Exception as e:      # noqa
            o['setup_exc'] = e
            o['setup_tb'] = traceback.format_exc()
            w.rec('setup_failed', type(e).__name__)
            return
        if sess.get('dump'):
            d = w.scratch / 'dump'
            m.write_summary_file(d)
            with REAL['open'](str(d / 'glompo_manager_log.yml')) as f:
                o['dump'] = load_yaml(f.read())
            o['dump_state'] = public_state(m, w)
        if sess.get('no_start'):
            return
        o['start_tree'] = snapshot_tree(w.scratch)
        if sess.get('split_logs'):
            split_logs(w, sess)
        w.arm(sess.get('events', []))
        if sess.get('disk'):
            w.set_disk(sess['disk'])
        try:
            w.in_run = True
            o['started_at'] = len(w.events)
            w.rec('start', i)
            r = m.start_manager()
            o['result'] = r
            o['returned'] = True
        except BaseException as e:      # noqa
            if isinstance(e, (osim.SimKilled,)):
                raise
            o['run_exc'] = e
            o['run_tb'] = traceback.format_exc()
        finally:
            if sim.current is not None and sim.current.alive and not w.crashed:
                w.in_run = False
                o['return_seq'] = len(w.events)
                o['return_t'] = sim.now
                w.rec('return', i, o.get('returned', False))
                o['state'] = public_state(m, w)
                o['alive_at_return'] = w.alive_ids()
                from tables.file import _open_files
                o['open_files'] = sorted(os.path.basename(f) for f in _open_files.filenames)

    w.mng_task = sim.spawn(body, 'manager', proc=proc, label='manager', speed=w.sc.get('mng_speed', 1.0), delay=0.0)
    try:
        sim.run(lambda: not w.mng_task.alive)
        if not w.crashed and not o.get('setup_exc') and not sess.get('no_start'):
            grace = sess.get('grace', 400.0)
            t_end = sim.now + grace
            sim.call_at(t_end, lambda: None)
            sim.idle_time_save, sim.idle_time = sim.idle_time, grace + 10
            sim.progress()
            try:
                sim.run(lambda: sim.now >= t_end or not any(not t.server for t in sim.live.values()))
            finally:
                sim.idle_time = sim.idle_time_save
    except Stuck as e:
        o['stuck'] = str(e)
        o['abort'] = True
    o['end_seq'] = len(w.events)
    o['end_t'] = sim.now
    o['crashed'] = w.crashed
    o['leftover'] = sorted((t.label or t.name, t.blocked_on or ('sleeping' if not t.waiting else 'blocked'))
                           for t in sim.live.values() if not t.server and t is not w.mng_task)
    o['leftover_server'] = sorted(t.name for t in sim.live.values() if t.server)
    if w.crashed or o.get('stuck'):
        crash_cleanup(w, o)
    for t in list(sim.live.values()):
        sim.kill_task(t)
    w.prev_streams = proc.stdout, proc.stderr
    unsplit_logs()
    for p in [proc]:
        p.exitcode = 0
    sim.heap.clear()
    w.in_run = False
    if not w.crashed and o.get('stuck') is None:
        close_tables()
    o['tree'] = snapshot_tree(w.scratch)
    read_outputs(w, sess, o)
    if sess.get('check_ckpts', True):
        o['ckpts'] = {n: verify_tar(w.ckpt_dir() / n) for n in w.list_ckpts()}
    w.crashed_any = getattr(w, 'crashed_any', False) or w.crashed


def crash_cleanup(w, o):
    """ Only what has reached the files by now survives; buffers of the dead process must not reach them later. """
    snap = str(w.scratch) + '_snap'
    shutil.copytree(str(w.scratch), snap, symlinks=True)
    for t in list(w.sim.live.values()):
        w.sim.kill_task(t)
    close_tables()
    gc.enable()
    gc.collect()
    gc.disable()
    for name in os.listdir(str(w.scratch)):
        if name in ('cwd',):
            continue
        p = os.path.join(str(w.scratch), name)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    for name in os.listdir(snap):
        if name in ('cwd',):
            continue
        shutil.move(os.path.join(snap, name), os.path.join(str(w.scratch), name))
    shutil.rmtree(snap, ignore_errors=True)


def public_state(m, w):
    """ The public attributes of the manager. """
    r = m.result
    d = {'f': m.f_counter, 'o': m.o_counter, 'conv': m.conv_counter, 'hunts': m.hunt_counter,
         'victims': sorted(m.hunt_victims), 'last_hunt': m.last_hunt, 'fx': r.fx,
         'x': None if r.x is None else wl.key(r.x), 'origin': dict(r.origin) if r.origin else None,
         'stats': dict(r.stats) if r.stats else None, 't_used': m.t_used, 'converged': m.converged,
         'opt_crashed': m.opt_crashed, 'max_jobs': m.max_jobs, 'proc_backend': m.proc_backend,
         'spawning': m.spawning_opts, 'hunt_frequency': m.hunt_frequency, 'share': m.incumbent_sharing,
         'sf': m.summary_files, 'detailed': m.is_log_detailed, 'split': m.split_printstreams,
         'aggressive': m.aggressive_kill, 'forced': m.allow_forced_terminations, 'end_timeout': m.end_timeout,
         'status_frequency': m.status_frequency, 'n_parms': m.n_parms, 'bounds': [tuple(b) for b in m.bounds or []],
         'dt': [(s.timestamp(), e.timestamp()) for s, e in zip(m.dt_starts, m.dt_ends)],
         'n_dt': (len(m.dt_starts), len(m.dt_ends)), 't_start': m.t_start, 't_end': m.t_end,
         'ckpt_history': sorted(Path(p).name for p in m.checkpoint_history), 'working_dir': str(m.working_dir.name),
         'last_spawn': tuple(m.last_opt_spawn), 'last_iter_ckpt': m.last_iter_checkpoint,
         'overwrite': m.overwrite_existing,
         'types': (type(m.opt_selector).__name__, type(m.x0_generator).__name__),
         'checker': str(m.convergence_checker), 'hunter': str(m.killing_conditions)}
    log = m.opt_log
    hist = {}
    try:
        d['n_log'] = len(log)
        d['log_best'] = {k: (wl.key(v) if k == 'x' else v) for k, v in log.get_best_iter().items()}
        for oid in range(1, m.o_counter + 1):
            try:
                hist[oid] = [float(f) for f in log.get_history(oid, 'fx')]
            except Exception:       # noqa  the file is closed
                hist[oid] = None
    except Exception as e:      # noqa
        d['log_error'] = repr(e)
    d['hist'] = hist
    d['ckpt_control'] = None if m.checkpoint_control is None else \
        {k: str(getattr(m.checkpoint_control, k)) for k in
         ('checkpoint_time_frequency', 'checkpoint_iter_frequency', 'checkpoint_at_conv', 'keep_past',
          'naming_format', 'raise_checkpoint_fail')}
    return d


def pick_checkpoint(w, sess):
    names = [n for n in w.list_ckpts()]
    which = sess.get('which', 'latest')
    if isinstance(which, int):
        done = [o for o in w.ckpt_obs if o['seq1'] and not o['exc']]
        cands = []
        for ob in done:
            new = [f"{ob['name']}.tar.gz"] if ob['new'] else []
            cands += [n for n in new if n in names and n not in cands]
        if not cands:
            return None
        name = cands[which % len(cands)]
    else:
        foreign = {k.split('/', 1)[1] for q in w.sc['sessions'] for k in q.get('pre_files') or {} if k.startswith('ckpts/')}
        names = [n for n in names if n not in foreign and os.path.isfile(str(w.ckpt_dir() / n))]
        if not names:
            return None
        name = max(names, key=lambda n: (os.stat(str(w.ckpt_dir() / n)).st_mtime_ns, n))
    return w.ckpt_dir() / name


def verify_tar(path):
    """ None if the file is a complete archive, else what is wrong with it. """
    try:
        with REAL['open'](str(path), 'rb') as f:
            data = f.read()
        with tarfile.open(fileobj=io.BytesIO(data), mode='r:gz') as t:
            names = []
            for mem in t:
                names.append(mem.name)
                if mem.isfile():
                    t.extractfile(mem).read()
        import gzip
        gzip.decompress(data)
        if 'manager' not in names or 'opt_log' not in names:
            return f'incomplete: {names}'
        return None
    except Exception as e:      # noqa
        return f'{type(e).__name__}: {e}'


def read_outputs(w, sess, o):
    wd = w.work_dir()
    p = wd / 'glompo_manager_log.yml'
    if os.path.exists(str(p)) and sess.get('read_yaml', True):
        with REAL['open'](str(p)) as f:
            text = f.read()
        o['yaml_text'] = text
        try:
            o['yaml'] = load_yaml(text)
        except Exception as e:      # noqa
            o['yaml_error'] = repr(e)
    p = wd / 'glompo_log.h5'
    if os.path.exists(str(p)):
        try:
            o['h5'] = read_h5(str(p))
        except Exception as e:      # noqa
            o['h5_error'] = f'{type(e).__name__}: {str(e)[:300]}'
    d = w.scratch / 'logs'
    if os.path.isdir(str(d)):
        o['logs'] = {}
        for n in sorted(os.listdir(str(d))):
            with REAL['open'](str(d / n)) as f:
                o['logs'][n] = f.read()
    d = wd / 'glompo_optimizer_printstreams'
    if os.path.isdir(str(d)):
        o['streams'] = {}
        for n in sorted(os.listdir(str(d))):
            with REAL['open'](str(d / n)) as f:
                o['streams'][n] = f.read()


def split_logs(w, sess):
    """ Has the log records of every optimizer sorted into files of their own, as users do. """
    from glompo.common.helpers import SplitOptimizerLogs
    fmt = logging.Formatter('%(levelname)s %(name)s %(message)s') if sess['split_logs'] != 'bare' else None
    lg = logging.getLogger('glompo.optimizers')
    h = RecHandler(w, w.split_records)
    h.addFilter(SplitOptimizerLogs(w.scratch / 'logs', propagate=sess['split_logs'] == 'propagate', formatter=fmt))
    lg.addHandler(h)
    lg.setLevel('INFO')


def unsplit_logs():
    for n in list(logging.Logger.manager.loggerDict):
        if n.startswith('glompo.optimizers'):
            lg = logging.getLogger(n)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                if getattr(h, 'stream', None) is not None:
                    try:
                        h.stream.close()
                    except Exception:       # noqa  its writer was killed while at it
                        pass
            lg.setLevel(logging.NOTSET)


def load_yaml(text):
    import yaml

    class L(yaml.SafeLoader):
        pass

    def unknown(loader, suffix, node):
        if isinstance(node, yaml.ScalarNode):
            return loader.construct_scalar(node)
        if isinstance(node, yaml.SequenceNode):
            return loader.construct_sequence(node, deep=True)
        return loader.construct_mapping(node, deep=True)

    L.add_multi_constructor('', unknown)
    return yaml.load(text, Loader=L)


def read_h5(path):
    tb = G['tb']
    out = {'opts': {}, 'attrs': {}}
    with tb.open_file(path, 'r') as f:
        for k in f.root._v_attrs._v_attrnamesuser:
            out['attrs'][k] = f.root._v_attrs[k]
        for g in f.iter_nodes('/', 'Group'):
            oid = int(g._v_name.split('_')[1])
            d = {'attrs': {k: g._v_attrs[k] for k in g._v_attrs._v_attrnamesuser}, 'messages': None, 'rows': []}
            if 'messages' in g:
                d['messages'] = [m for m in g['messages'].read()]
            if 'iter_hist' in g:
                tab = g['iter_hist']
                d['cols'] = list(tab.colnames)
                rows = tab.read()
                ids, xs, fxs = rows['call_id'].tolist(), rows['x'].tolist(), rows['fx'].tolist()
                ex = [rows[c].tolist() for c in tab.colnames if c not in ('call_id', 'x', 'fx')]
                d['rows'] = [(ids[i], tuple(xs[i]), fxs[i], tuple(e[i] for e in ex)) for i in range(len(ids))]
            out['opts'][oid] = d
    return out
