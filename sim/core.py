"""Deterministic discrete-event scheduler on greenlets.

One `Sim` is one execution.  Every task (manager, optimizer thread or process, queue-server call, timer) is a greenlet;
only the hub decides which one continues and at which simulated time.  Every decision comes from `Choice`, which either
draws from a seeded PRNG and records the draw, or plays recorded draws back.
"""
import hashlib
import heapq
import sys
import random as _random_mod

import greenlet

_getcurrent = greenlet.getcurrent


class Choice:
    """ Source of all decisions: `draw(n)` returns an int in [0, n); 0 is always the most neutral one. """

    def __init__(self, seed=None, playback=None):
        self.rng = _random_mod.Random(seed)
        self.playback = playback
        self.i = 0
        self.log = []

    def draw(self, n):
        if self.playback is not None:
            v = self.playback[self.i] % n if self.i < len(self.playback) else 0
            self.i += 1
        else:
            v = int(self.rng.random() * n)
        self.log.append(v)
        return v

    def chance(self, num, den):
        """ True with probability num/den, False being neutral. """
        return self.draw(den) >= den - num


class Stuck(Exception):
    """ The run cannot or does not make progress. """


class SimKilled(BaseException):
    pass


class Task:
    __slots__ = ('sim', 'id', 'name', 'proc', 'g', 'alive', 'speed', 'label', 'pending_exc', 'waiting', 'wake_token',
                 'daemon', 'wake_val', 'ident', 'on_end', 'server', 'blocked_on', 'exc_gate', 'bypassed')

    def __init__(self, sim, fn, name, proc, label=None, speed=1.0, server=False):
        sim.task_counter += 1
        self.sim = sim
        self.id = sim.task_counter
        self.ident = 10_000 + self.id
        self.name = name
        self.proc = proc
        self.label = label
        self.alive = True
        self.speed = speed
        self.pending_exc = None
        self.exc_gate = None
        self.bypassed = 0
        self.waiting = False
        self.wake_token = 0
        self.wake_val = None
        self.daemon = False
        self.on_end = []
        self.server = server
        self.blocked_on = None
        self.g = greenlet.greenlet(self._run_factory(fn), parent=sim.hub)

    def _run_factory(self, fn):
        def run():
            sim = self.sim
            try:
                sim._resumed(self)
                fn()
            except SimKilled:
                pass
            except greenlet.GreenletExit:
                return
            except BaseException as e:          # noqa
                sim.uncaught(self, e)
            finally:
                if self.alive:
                    self.alive = False
                    sim.live.pop(self.id, None)
                    for cb in self.on_end:
                        cb()
        return run


# Latency multipliers for the three jitter levels; index 0 is the neutral one.
JITTER = [
    [1.0] * 64,
    [1.0] * 40 + [1.5] * 8 + [2.0] * 6 + [4.0] * 5 + [10.0] * 3 + [50.0] * 2,
    [1.0] * 24 + [0.3] * 8 + [2.0] * 8 + [5.0] * 8 + [20.0] * 6 + [100.0] * 5 + [1000.0] * 3 + [10000.0] * 2,
    [1.0] * 8 + [0.05] * 8 + [0.3] * 8 + [3.0] * 8 + [10.0] * 8 + [60.0] * 8 + [300.0] * 8 + [2000.0] * 6 + [30000.0] * 2,
]


class Sim:
    cur = None  # the active simulation of this interpreter

    def __init__(self, choice, jitter=1, base_cost=2e-5, max_steps=3_000_000, max_time=50_000.0,
                 idle_steps=120_000, idle_time=4_000.0, trace=False):
        self.choice = choice
        self.hub = _getcurrent()
        self.now = 0.0
        self.wall_offset = 1_600_000_000.0
        self.heap = []
        self.seq = 0
        self.task_counter = 0
        self.current = None
        self.live = {}
        self.jitter = JITTER[jitter]
        self.base_cost = base_cost
        self.steps = 0
        self.switches = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.idle_steps = idle_steps
        self.max_latency = 1.0
        self.idle_time = idle_time
        self.progress_step = 0
        self.progress_time = 0.0
        self.events = []           # (simtime, kind, ...) the recorded history
        self.hash = hashlib.blake2b(digest_size=16)
        self.trace = trace
        self.errors = []           # harness errors
        self.uncaught_list = []
        self.stop_flag = False
        self.cur_proc = None
        self.fault_counts = {}
        self.probes = {}
        self.main_proc = None
        self.sched_sig = hashlib.blake2b(digest_size=8)   # interleaving signature: order of task switches at record points
        self.on_event = []
        # used by osim
        self.proc_counter = 0
        self.pipe_counter = 0
        self.fd_mode = 'refcount'
        self.ident_reuse = False
        self.free_idents = []
        self.thread_started = None
        self.process_started = None
        self.child_tracebacks = []
        self.server_objects = []
        self.disk = None
        self.fs_hooks = []
        self.shuffle_dirs = False
        self.fine_grained = True

    # -------------------------------------------------------------- history
    def record(self, kind, *data):
        if len(self.events) > 60_000:
            self.max_steps = 0          # does not end: reported as stuck, before it fills the memory
        ev = (len(self.events), self.now, kind) + data
        self.events.append(ev)
        self.hash.update(repr((round(self.now, 9), kind) + data).encode())
        cur = self.current
        self.sched_sig.update(f'{kind}:{cur.label if cur else None};'.encode())
        for cb in self.on_event:
            cb(ev)
        return ev

    def progress(self):
        self.progress_step = self.steps
        self.progress_time = self.now

    def count_fault(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ------------------------------------------------------------ scheduling
    def spawn(self, fn, name, proc=None, label=None, speed=None, server=False, delay=None):
        cur = self.current
        if proc is None:
            proc = cur.proc if cur else self.main_proc
        if label is None and cur is not None:
            label = cur.label
        if speed is None:
            speed = cur.speed if cur else 1.0
        t = Task(self, fn, name, proc, label, speed, server)
        self.live[t.id] = t
        if proc is not None:
            proc.tasks[t.id] = t
        self._schedule(t, self.now + (self.latency(t) if delay is None else delay))
        return t

    def latency(self, task, scale=1.0):
        idle = self.steps - self.progress_step
        if idle > 4000:      # busy waiting: let time pass faster, up to about 1 ms per operation
            scale *= min(1 + (idle - 4000) / 500.0, max(1.0, 1e-3 / self.base_cost))
        return min(self.base_cost * task.speed * scale * self.jitter[self.choice.draw(64)], self.max_latency)

    def _schedule(self, task, t, token=None):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, task, token))

    def call_at(self, t, fn):
        """ Runs fn in the hub at simulated time t. """
        self.seq += 1
        heapq.heappush(self.heap, (max(t, self.now), self.seq, None, fn))

    def _resumed(self, task):
        """ Book-keeping whenever `task` gets the processor. """
        if task.proc is not self.cur_proc:
            old, new = self.cur_proc, task.proc
            if old is not None:
                old.stdout, old.stderr = sys.stdout, sys.stderr
            self.cur_proc = new
            if new is not None:
                sys.stdout, sys.stderr = new.stdout, new.stderr
        self.current = task

    def _to_hub(self, task):
        if _getcurrent() is not task.g:
            raise RuntimeError('simulated operation outside of its task')
        self.switches += 1
        self.hub.switch()
        self._resumed(task)
        if not task.alive:
            raise SimKilled()
        if task.pending_exc is not None and (task.exc_gate is None or task.exc_gate()):
            e, task.pending_exc = task.pending_exc, None
            self.record('exc_delivered', type(e).__name__, task.label)
            raise e

    def step(self, scale=1.0):
        """ A scheduling point: the current task spends some time on an operation. """
        task = self.current
        if task is None:
            return
        self.steps += 1
        t = self.now + self.latency(task, scale)
        h = self.heap
        if (not h or h[0][0] > t) and task.pending_exc is None and self.steps < self.max_steps \
                and t < self.max_time and self.steps - self.progress_step < self.idle_steps \
                and t - self.progress_time < self.idle_time:
            self.now = t
            return
        self._schedule(task, t)
        self._to_hub(task)

    def sleep(self, dt):
        task = self.current
        if task is None:
            return
        self.steps += 1
        self._schedule(task, self.now + max(dt, 0.0))
        self._to_hub(task)

    def block(self, timeout=None, what=None):
        """ Suspends the current task until `wake`d; returns the wake value or None on time-out. """
        task = self.current
        if task is None:
            raise RuntimeError('blocking operation outside of the simulation')
        self.steps += 1
        task.waiting = True
        task.wake_token += 1
        task.wake_val = None
        task.blocked_on = what
        if timeout is not None:
            self._schedule(task, self.now + max(timeout, 0.0), ('t', task.wake_token))
        try:
            self._to_hub(task)
        finally:
            task.waiting = False
            task.blocked_on = None
            task.wake_token += 1
        return task.wake_val

    def wake(self, task, val=True, delay=None):
        """ Makes a blocked task continue (at most once per block). """
        if not task.alive or not task.waiting or task.wake_val is not None:
            return False
        task.wake_val = val
        self._schedule(task, self.now + (self.latency(task) if delay is None else delay), ('w', task.wake_token))
        return True

    def interrupt(self, task, exc, gate=None):
        """ Delivers exc to task at its next scheduling point, waking it if it is blocked. """
        if not task.alive:
            return
        task.pending_exc = exc
        task.exc_gate = gate
        if task.waiting and (gate is None or gate()):
            self._schedule(task, self.now, ('w', task.wake_token))

    def kill_task(self, task):
        """ The task never runs again; its finally blocks do not run either (process kill). """
        if task.alive:
            task.alive = False
            self.live.pop(task.id, None)
            for cb in task.on_end:
                cb()

    def uncaught(self, task, e):
        self.uncaught_list.append((task.name, task.label, e))

    def run(self, until):
        """ Runs the simulation until `until()` is true. """
        h = self.heap
        try:
            while not until():
                if self.stop_flag:
                    break
                if not h:
                    raise Stuck('deadlock: ' + self.describe_blocked())
                t, _, task, tok = heapq.heappop(h)
                if task is None:
                    if t > self.now:
                        self.now = t
                    self.current = None
                    tok()
                    continue
                if not task.alive:
                    continue
                if tok is not None:
                    kind, token = tok
                    if token != task.wake_token or not task.waiting:
                        continue
                    if kind == 't' and task.wake_val is not None:
                        continue  # a wake-up is already on its way
                if t > self.now:
                    self.now = t
                if self.now > self.max_time:
                    raise Stuck(f'simulated time {self.now:.0f}s exceeded: ' + self.describe_blocked())
                if self.steps > self.max_steps:
                    raise Stuck(f'{self.steps} steps exceeded: ' + self.describe_blocked())
                if self.steps - self.progress_step > self.idle_steps or self.now - self.progress_time > self.idle_time:
                    raise Stuck(f'no progress for {self.steps - self.progress_step} steps, '
                                f'{self.now - self.progress_time:.0f}s: ' + self.describe_blocked())
                task.g.switch()
        finally:
            self.current = None
            # the harness' own streams
            if self.cur_proc is not None:
                self.cur_proc.stdout, self.cur_proc.stderr = sys.stdout, sys.stderr
            self.cur_proc = None
            sys.stdout, sys.stderr = self.harness_streams

    harness_streams = (sys.stdout, sys.stderr)

    def describe_blocked(self):
        out = []
        for t in list(self.live.values())[:30]:
            out.append(f"{t.label or t.name}[{t.blocked_on or ('running' if not t.waiting else 'blocked')}]")
        return ', '.join(out)

    def end(self):
        for t in list(self.live.values()):
            t.alive = False
        self.live.clear()
        self.heap.clear()


# ------------------------------------------------------------------ synchronisation primitives

class SimLock:
    """ Replacement of `_thread.lock`.  Others may get in before somebody who was woken, but not for ever: after
    BYPASS times the lock is handed over. """
    __slots__ = ('_locked', '_waiters', '_quiet', '_grant')
    BYPASS = 25

    def __init__(self, quiet=False):
        self._locked = False
        self._waiters = []
        self._quiet = quiet
        self._grant = None

    def acquire(self, blocking=True, timeout=-1):
        sim = Sim.cur
        if sim is None or sim.current is None:
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError('lock would block outside of the simulation')
            self._locked = True
            return True
        if not self._quiet:
            sim.step()
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        me = sim.current
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        me.bypassed = 0
        while self._locked:
            entry = me
            self._waiters.append(entry)
            try:
                sim.block(None if deadline is None else deadline - sim.now, 'lock')
                me.bypassed += 1
            except BaseException:
                if self._grant is me:
                    self._grant = None
                    self.release()
                elif entry in self._waiters:
                    self._waiters.remove(entry)
                elif not self._locked and self._waiters:
                    sim.wake(self._waiters.pop(0))
                raise
            if entry in self._waiters:
                self._waiters.remove(entry)
            if self._grant is me:
                self._grant = None
                return True
            if self._locked and deadline is not None and sim.now >= deadline:
                return False
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        sim = Sim.cur
        if self._waiters and sim is not None:
            for w in self._waiters:
                if w.bypassed >= self.BYPASS:
                    self._waiters.remove(w)
                    if sim.wake(w):
                        self._locked, self._grant = True, w
                        return
                    break
            n = len(self._waiters)
            if not n:
                return
            k = sim.choice.draw(n) if n > 1 else 0
            w = self._waiters.pop(k)
            if not sim.wake(w):
                # the waiter timed out or died meanwhile: wake another one
                for w in list(self._waiters):
                    self._waiters.remove(w)
                    if sim.wake(w):
                        break

    release_lock = release

    def locked(self):
        return self._locked

    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    def __deepcopy__(self, memo):
        new = SimLock(self._quiet)
        return new

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock:
    __slots__ = ('_owner', '_count', '_block')

    def __init__(self):
        self._owner = None
        self._count = 0
        self._block = SimLock(quiet=True)

    @staticmethod
    def _me():
        sim = Sim.cur
        return sim.current if sim is not None else None

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._count and self._owner is me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if not self._count or self._owner is not self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._count > 0 and self._owner is self._me()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0

    def __deepcopy__(self, memo):
        return SimRLock()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")
