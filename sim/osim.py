"""Simulated operating system: clock, threads, processes, pipes, the multiprocessing manager server and disk faults.

`install()` replaces the standard-library entry points the system under test uses; it must run before glompo is imported.
The code of threading.Thread, queue.Queue, concurrent.futures, tarfile, pathlib, dill, PyTables and glompo itself is real.
"""
import builtins
import copy
import errno
import io
import multiprocessing
import multiprocessing.connection
import multiprocessing.managers
import os
import pathlib
import pickle
import queue
import random
import shutil
import sys
import tarfile
import threading
import time
import traceback
import types

from .core import Sim, SimLock, SimRLock, SimKilled, Task

REAL = {}


def cur_sim():
    s = Sim.cur
    return s if s is not None and s.current is not None else None


# ----------------------------------------------------------------------------------------------- clock

def _time():
    s = Sim.cur
    if s is None:
        return REAL['time']()
    return s.wall_offset + s.now


def _monotonic():
    s = Sim.cur
    if s is None:
        return REAL['monotonic']()
    return 1000.0 + s.now


def _sleep(dt):
    s = cur_sim()
    if s is None:
        return REAL['sleep'](dt) if Sim.cur is None else None
    s.sleep(dt)


# --------------------------------------------------------------------------------------------- threads

def _start_new_thread(fn, args, kwargs=None):
    s = cur_sim()
    if s is None:
        raise RuntimeError('thread started outside of the simulation')
    tobj = getattr(fn, '__self__', None)
    name = getattr(tobj, 'name', None) or 'thread'
    label = s.current.label
    ends = _find_ends((getattr(tobj, '_target', None), getattr(tobj, '_args', None), getattr(tobj, '_kwargs', None)))

    def body():
        task = s.current
        try:
            fn(*args, **(kwargs or {}))
        finally:
            if task.alive:
                if s.fd_mode == 'refcount':
                    for e in ends:
                        e._close()
                s.record('thread_exit', task.label or task.name)
                s.progress()
                sl = _sentinels.pop(task.ident, None)
                if sl is not None and sl.locked():
                    sl.release()
                if s.ident_reuse:
                    s.free_idents.append(task.ident)

    t = s.spawn(body, name, label=label)
    if s.free_idents and s.ident_reuse:
        t.ident = s.free_idents.pop()
    if s.thread_started:
        s.thread_started(t, name)
    return t.ident


_sentinels = {}


def _set_sentinel():
    lock = SimLock(quiet=True)
    _sentinels[_get_ident()] = lock
    return lock


def _get_ident():
    s = Sim.cur
    if s is None or s.current is None:
        return REAL['get_ident']()
    return s.current.ident


# --------------------------------------------------------------------------------------------- processes

class SimProc:
    """ An operating system process. """
    counter = 1000

    def __init__(self, sim, name, stdout, stderr, parent=None):
        self.sim = sim
        sim.proc_counter += 1
        self.pid = 4000 + sim.proc_counter
        self.name = name
        self.tasks = {}
        self.stdout = stdout
        self.stderr = stderr
        self.exitcode = None
        self.exit_waiters = []
        self.owned_ends = []      # pipe ends closed by the system when the process ends
        self.exit_time = None

    def exit(self, code):
        if self.exitcode is not None:
            return
        self.exitcode = code
        self.exit_time = self.sim.now
        for t in list(self.tasks.values()):
            if t is not self.sim.current:
                self.sim.kill_task(t)
        for end in self.owned_ends:
            end.owners.discard(self)
            if not end.owners:
                end._close()
        self.sim.record('proc_exit', self.name, code)
        self.sim.progress()
        for w in self.exit_waiters:
            self.sim.wake(w)
        self.exit_waiters = []


class NoCopy:
    """ Kernel objects: shared by everybody, also after a fork. """

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError(f"cannot pickle '{type(self).__name__}' object")


def _fork_copy(obj, memo):
    """ What a fork gives the child: its own copy of everything reachable. """
    if isinstance(obj, types.FunctionType) and obj.__closure__:
        cells = tuple(types.CellType(_fork_copy(c.cell_contents, memo)) for c in obj.__closure__)
        f = types.FunctionType(obj.__code__, obj.__globals__, obj.__name__, obj.__defaults__, cells)
        f.__dict__.update({k: v for k, v in obj.__dict__.items() if k != '__wrapped__'})
        return f
    return copy.deepcopy(obj, memo)


class SimProcess(NoCopy):
    _popen = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.name = name or 'Process'
        self.daemon = bool(daemon)
        self._proc = None

    def start(self):
        s = cur_sim()
        assert self._proc is None, 'cannot start a process twice'
        s.step(20)
        parent = s.current.proc
        proc = self._proc = SimProc(s, self.name, parent.stdout if parent is not s.cur_proc else sys.stdout,
                                    parent.stderr if parent is not s.cur_proc else sys.stderr)
        memo = {}
        target = _fork_copy(self._target, memo)
        args = tuple(_fork_copy(a, memo) for a in self._args)
        kwargs = {k: _fork_copy(v, memo) for k, v in self._kwargs.items()}
        ends = _find_ends((target, args, kwargs))
        for e in ends:
            if s.fd_mode == 'refcount':
                e.owners = {proc}       # the parent's copy is closed with its last reference, which start() drops
            else:
                e.owners.add(proc)      # the parent's copy lives on until some garbage collection
            proc.owned_ends.append(e)

        def body():
            code = 0
            try:
                target(*args, **kwargs)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except SimKilled:
                raise
            except BaseException as e:      # noqa
                s.child_tracebacks.append((self.name, repr(e)))
                code = 1
                try:
                    sys.stderr.write(traceback.format_exc())
                except (AttributeError, ValueError, OSError):
                    pass
            t = s.current
            if t.alive:
                for f in (sys.stdout, sys.stderr):      # as multiprocessing does
                    try:
                        f.flush()
                    except (AttributeError, ValueError, OSError):
                        pass
            if t.alive and proc.exitcode is None:
                s.step()
                proc.exit(code)

        t = s.spawn(body, self.name, proc=proc, label=self.name)
        del self._target, self._args, self._kwargs
        s.record('proc_start', self.name)
        if s.process_started:
            s.process_started(t, self.name, proc)

    def is_alive(self):
        s = cur_sim()
        if s:
            s.step(0.1)
        return self._proc is not None and self._proc.exitcode is None

    @property
    def exitcode(self):
        return self._proc.exitcode if self._proc else None

    @property
    def pid(self):
        return self._proc.pid if self._proc else None

    ident = pid

    def terminate(self):
        self._signal(-15)

    def kill(self):
        self._signal(-9)

    def _signal(self, code):
        s = cur_sim()
        s.step()
        proc = self._proc
        if proc is None or proc.exitcode is not None:
            return
        s.record('terminate', self.name, code)
        s.call_at(s.now + s.latency(s.current, 3), lambda: proc.exit(code))

    def join(self, timeout=None):
        s = cur_sim()
        s.step()
        proc = self._proc
        if proc is None or proc.exitcode is not None:
            return
        proc.exit_waiters.append(s.current)
        try:
            deadline = None if timeout is None else s.now + timeout
            while proc.exitcode is None:
                s.block(None if deadline is None else deadline - s.now, f'join {self.name}')
                if deadline is not None and s.now >= deadline:
                    break
        finally:
            if s.current in proc.exit_waiters:
                proc.exit_waiters.remove(s.current)

    def close(self):
        pass


def _find_ends(root):
    """ Pipe ends held by an object graph (bounded search over the harness' and glompo's containers). """
    seen, out, stack = set(), [], [root]
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, (int, float, str, bytes, type(None), type, types.ModuleType)):
            continue
        seen.add(id(o))
        if isinstance(o, PipeEnd):
            out.append(o)
            continue
        if isinstance(o, dict):
            stack.extend(o.values())
        elif isinstance(o, (list, tuple, set)):
            stack.extend(o)
        elif isinstance(o, types.MethodType):
            stack.append(o.__self__)
            if len(seen) < 5000:
                stack.append(getattr(o, '__func__', None))
        elif isinstance(o, types.FunctionType):
            if o.__closure__:
                stack.extend(c.cell_contents for c in o.__closure__)
        elif type(o).__module__.split('.')[0] in ('glompo', 'sim', '__main__') and hasattr(o, '__dict__') \
                and not isinstance(o, (Sim, Task, SimProc)):
            stack.extend(v for k, v in o.__dict__.items())
    return out


# ------------------------------------------------------------------------------------------------- pipes

class PipeEnd(NoCopy):
    """ One end of a duplex Unix socket pair carrying pickled messages. """

    def __init__(self, sim):
        self.sim = sim
        self.inbox = []
        self.peer = None
        self.closed = False
        self.waiters = []
        self.owners = set()
        self.reset = False        # unread data was lost at the peer: next operation gets ECONNRESET
        self.child_end_for = None
        self.name = None

    def _op(self):
        self.sim.step()

    def send(self, obj):
        data = pickle.dumps(obj)
        self._op()
        if self.closed:
            raise OSError('handle is closed')
        p = self.peer
        if self.reset:
            self.reset = False
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if p.closed:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        p.inbox.append(data)
        self.sim.progress()
        self.sim.record('send', self.name, _brief(obj))
        for w in p.waiters:
            self.sim.wake(w)

    def _readable(self):
        return bool(self.inbox) or self.peer.closed or self.reset

    def poll(self, timeout=0.0):
        self._op()
        if self.closed:
            raise OSError('handle is closed')
        if self._readable() or (timeout is not None and timeout <= 0):
            return self._readable()
        self._wait(timeout)
        return self._readable()

    def _wait(self, timeout):
        me = self.sim.current
        deadline = None if timeout is None else self.sim.now + timeout
        self.waiters.append(me)
        try:
            while not self._readable():
                self.sim.block(None if deadline is None else deadline - self.sim.now, f'pipe {self.name}')
                if deadline is not None and self.sim.now >= deadline:
                    break
        finally:
            self.waiters.remove(me)

    def recv(self):
        self._op()
        if self.closed:
            raise OSError('handle is closed')
        if not self._readable():
            self._wait(None)
        if self.inbox:
            self.sim.progress()
            return pickle.loads(self.inbox.pop(0))
        if self.reset:
            self.reset = False
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        raise EOFError

    def close(self):
        if self.sim.current is not None:
            self._op()
        self._close()

    def _close(self):
        if not self.closed:
            self.closed = True
            if self.inbox:
                self.peer.reset = True
            for w in self.peer.waiters:
                self.sim.wake(w)

    def fileno(self):
        return 3

    @property
    def readable(self):
        return True

    @property
    def writable(self):
        return True


def _brief(obj):
    if isinstance(obj, tuple):
        return tuple(_brief(o) for o in obj)
    if isinstance(obj, str):
        return obj[:60]
    if isinstance(obj, (int, float)) or obj is None:
        return obj
    if isinstance(obj, os.PathLike):
        return 'path'
    if isinstance(obj, list) or type(obj).__name__ == 'ndarray':
        try:
            return tuple(float(o) for o in obj)
        except (TypeError, ValueError):
            return str(obj)[:80]
    return float(obj) if type(obj).__module__ == 'numpy' and hasattr(obj, 'item') else type(obj).__name__


def _pipe(duplex=True):
    s = cur_sim()
    a, b = PipeEnd(s), PipeEnd(s)
    a.peer, b.peer = b, a
    s.pipe_counter += 1
    a.name, b.name = f'P{s.pipe_counter}m', f'P{s.pipe_counter}c'
    a.owners.add(s.current.proc)
    b.owners.add(s.current.proc)
    return a, b


# ------------------------------------------------------------------- multiprocessing manager server and its proxies

class SimProxy(NoCopy):
    """ A proxy: every method call is executed by the server, in a task of its own, on pickled copies. """

    def __init__(self, server, obj, exposed, name):
        self.__dict__.update(_server=server, _obj=obj, _exposed=exposed, _name=name)

    def __getattr__(self, name):
        if name.startswith('__') or (self._exposed and name not in self._exposed):
            raise AttributeError(name)
        if not callable(getattr(self._obj, name, None)):
            raise AttributeError(f"'{self._name}' proxy has no method {name!r}")
        server, obj = self._server, self._obj

        def call(*args, **kwargs):
            return server.call(obj, self._name, name, args, kwargs)

        call.__name__ = name
        return call

    def __setattr__(self, k, v):
        raise AttributeError('proxies have no settable attributes')

    def __str__(self):
        return f'<{self._name} proxy>'

    __repr__ = __str__


class SimManagerServer(NoCopy):
    def __init__(self):
        s = cur_sim()
        self._sim = s
        self._proc = SimProc(s, 'server', sys.stdout, sys.stderr)
        s.server_objects = []

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        reg = multiprocessing.managers.SyncManager._registry
        if name not in reg:
            raise AttributeError(name)
        cls, exposed, _, proxytype = reg[name]
        if exposed is None:
            exposed = getattr(proxytype, '_exposed_', None)

        def make(*args, **kwargs):
            sim = cur_sim()
            sim.step()
            obj = cls(*args, **kwargs)
            sim.server_objects.append((name, obj))
            return SimProxy(self, obj, exposed, name)

        return make

    def call(self, obj, oname, mname, args, kwargs):
        sim = cur_sim()
        me = sim.current
        data = pickle.dumps((args, kwargs))
        sim.step()
        box = []
        waiting = [True]

        def body():
            a, k = pickle.loads(data)
            try:
                r = ('ok', pickle.dumps(getattr(obj, mname)(*a, **k)))
            except Exception as e:      # noqa
                r = ('err', e)
            box.append(r)
            if oname == 'ChunkingQueue' and mname not in ('empty', 'full', 'qsize', 'has_cache') and r[0] == 'ok':
                sim.progress()
            if waiting[0]:
                sim.wake(me)

        sim.spawn(body, f'{oname}.{mname}', proc=self._proc, label=f'srv:{oname}.{mname}<{me.label}', speed=1.0,
                  server=True)
        try:
            while not box:
                sim.block(None, f'{oname}.{mname}')
        finally:
            waiting[0] = False
        kind, val = box[0]
        if kind == 'err':
            raise val
        return pickle.loads(val)

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


# ---------------------------------------------------------------------------------------------------- disk

class DiskFull(OSError):
    pass


class Disk:
    """ Fault plan over the file operations below one directory.  Every operation is numbered; `plan(op_index, kind,
    path)` returns None, 'enospc', 'eio', 'short' or 'crash'. """

    def __init__(self, root):
        self.root = str(root)
        self.n = 0
        self.plan = None
        self.log = []
        self.yields = True
        self.crash_hook = None

    def covers(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode()
        if not isinstance(p, str):
            return False
        if not p.startswith('/'):
            return False
        return p.startswith(self.root)

    def removed(self, s, path):
        """ Records what disappears from the directories users look at. """
        rel = os.path.relpath(path, self.root)
        if not rel.startswith(('ckpts', 'tmp', 'cwd/checkpoints')):
            s.record('removed', rel)

    def op(self, kind, path):
        """ Returns an action for the coming operation or raises the injected error. """
        s = cur_sim()
        if s is None:
            return None
        if s.current.server:
            return None
        s.step()
        self.n += 1
        for h in s.fs_hooks:
            h(self.n, kind, str(path))
        if self.plan is None:
            return None
        act = self.plan(self.n, kind, str(path))
        if act is None:
            return None
        if act == 'enospc':
            if kind in ('unlink', 'rmdir', 'close'):
                return None
            s.count_fault('disk_full:' + kind)
            s.record('fs_fault', 'enospc', kind, os.path.basename(str(path)))
            raise OSError(errno.ENOSPC, 'No space left on device', str(path))
        if act == 'eio':
            s.count_fault('io_error:' + kind)
            s.record('fs_fault', 'eio', kind, os.path.basename(str(path)))
            raise OSError(errno.EIO, 'Input/output error', str(path))
        if act == 'short':
            return 'short'
        if act == 'crash':
            self.crash_hook(kind, path, before=True)
        return None


class FaultRaw(io.FileIO):
    _disk = None
    _path = None

    def write(self, b):
        d = self._disk
        act = d.op('write', self._path)
        if act == 'short':
            n = max(1, len(b) // 2)
            s = cur_sim()
            s.count_fault('short_write')
            return super().write(bytes(b)[:n])
        return super().write(b)


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = cur_sim()
    d = s.disk if s is not None else None
    if d is None or isinstance(file, int) or not d.covers(file) or s.current.server:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if not writing:
        d.op('open_r', file)
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    d.op('open_w', file)
    raw_mode = mode.replace('b', '').replace('t', '')
    raw = FaultRaw(os.fspath(file), raw_mode)
    raw._disk, raw._path = d, os.fspath(file)
    if buffering == 0:
        return raw
    buf = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw)
    if 'b' in mode:
        return buf
    txt = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)
    return txt


def _fs_wrap(name, kind, nargs=1):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def wrapper(path, *args, **kwargs):
        s = cur_sim()
        if s is not None and s.disk is not None:
            target = args[0] if nargs == 2 and args else path
            if s.disk.covers(path) or s.disk.covers(target):
                s.disk.op(kind, path)
                r = real(path, *args, **kwargs)
                if kind != 'mkdir' and not s.current.server:
                    s.disk.removed(s, str(path))
                return r
        return real(path, *args, **kwargs)

    wrapper.__name__ = name
    return wrapper


def _listdir(path='.'):
    out = sorted(REAL['os.listdir'](path))
    s = cur_sim()
    if s is not None and s.disk is not None and s.shuffle_dirs and len(out) > 1:
        k = s.choice.draw(len(out))
        out = out[k:] + out[:k]
    return out


class _ScandirIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _scandir(path='.'):
    with REAL['os.scandir'](path) as it:
        entries = sorted(it, key=lambda e: e.name)
    s = cur_sim()
    if s is not None and s.disk is not None and s.shuffle_dirs and len(entries) > 1:
        k = s.choice.draw(len(entries))
        entries = entries[k:] + entries[:k]
    return _ScandirIter(entries)


# ------------------------------------------------------------------------------------------------ install

class _StrongWeakref:
    """ concurrent.futures drops executors through weak references: garbage collection must not decide anything. """
    WeakKeyDictionary = dict

    @staticmethod
    def ref(obj, cb=None):
        return lambda: obj


class _QueueTime:
    pass


def install():
    REAL['time'], REAL['monotonic'], REAL['sleep'] = time.time, time.monotonic, time.sleep
    REAL['perf_counter'] = time.perf_counter
    REAL['get_ident'] = threading.get_ident
    REAL['open'] = io.open
    REAL['os.listdir'], REAL['os.scandir'] = os.listdir, os.scandir

    time.time, time.monotonic, time.perf_counter, time.sleep = _time, _monotonic, _monotonic, _sleep
    import datetime
    if getattr(datetime, '_time', None) is not None:
        assert datetime._time is time

    # threads
    import _thread
    threading._start_new_thread = _start_new_thread
    threading._allocate_lock = threading.Lock = SimLock
    threading._CRLock = None
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._set_sentinel = _set_sentinel
    threading.get_ident = _get_ident
    threading._time = _monotonic
    threading._active_limbo_lock = SimLock(quiet=True)
    threading._shutdown_locks_lock = SimLock(quiet=True)
    threading._DeleteDummyThreadOnDel = None
    if hasattr(threading, 'get_native_id'):
        threading.get_native_id = _get_ident
    threading._HAVE_THREAD_NATIVE_ID = False
    queue.time = _monotonic
    queue.threading = threading
    queue.SimpleQueue = queue._PySimpleQueue
    import concurrent.futures.thread as cft
    cft.weakref = _StrongWeakref
    cft._threads_queues = {}
    cft._global_shutdown_lock = SimLock(quiet=True)
    import concurrent.futures.process    # imported here so that it sees the real primitives

    # processes
    multiprocessing.Process = SimProcess
    multiprocessing.Pipe = _pipe
    multiprocessing.Manager = SimManagerServer
    multiprocessing.cpu_count = lambda: 8
    os.cpu_count = lambda: 8

    # files
    builtins.open = io.open = _open
    tarfile.bltn_open = _open
    for name, kind, n in (('mkdir', 'mkdir', 1), ('unlink', 'unlink', 1), ('remove', 'unlink', 1), ('rmdir', 'rmdir', 1),
                          ('replace', 'rename', 2), ('rename', 'rename', 2)):
        w = _fs_wrap(name, kind, n)
        setattr(os, name, w)
        for acc in (pathlib._NormalAccessor, pathlib._normal_accessor):
            if hasattr(acc, name):
                setattr(acc, name, staticmethod(w) if isinstance(acc, type) else w)
    os.listdir, os.scandir = _listdir, _scandir
    for acc in (pathlib._NormalAccessor, pathlib._normal_accessor):
        if isinstance(acc, type):
            acc.listdir, acc.scandir = staticmethod(_listdir), staticmethod(_scandir)
        else:
            acc.listdir, acc.scandir = _listdir, _scandir
    shutil._use_fd_functions = False

    # PyPy has no sys.getsizeof; CPython's answer is only used as a size estimate
    def getsizeof(obj, default=None):
        return 64

    sys.getsizeof = getsizeof


def stub_psutil():
    import psutil
    from collections import namedtuple
    M = namedtuple('M', 'uss rss total')
    F = namedtuple('F', 'current min max')

    class P:
        pid = 4001

        def __init__(self, pid=None):
            pass

        def cpu_percent(self, *a):
            return 12.5

        def cpu_affinity(self):
            return [0, 1, 2, 3]

        def memory_full_info(self):
            return M(1_000_000, 2_000_000, 8_000_000)

        def children(self, recursive=False):
            return []

        def oneshot(self):
            return self

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def __deepcopy__(self, memo):
            return self

    psutil.Process = P
    psutil.getloadavg = lambda: (0.5, 0.4, 0.3)
    psutil.virtual_memory = lambda: M(0, 0, 16_000_000_000)
    psutil.cpu_freq = lambda *a: F(2000., 1000., 3000.)
