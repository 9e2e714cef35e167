"""Scripted optimizers for the demonstrations; run with the repository as working directory."""
import logging
import os
import shutil
import sys
import tempfile
import threading
import time
import warnings
from pathlib import Path

sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')

import numpy as np                                                              # noqa
import glompo.core.optimizerlogger as _ol                                       # noqa
from glompo.core.manager import GloMPOManager                                   # noqa
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult       # noqa
from glompo.opt_selectors import CycleSelector                                  # noqa
from glompo.convergence import BaseChecker, MaxFuncCalls, MaxOptsStarted, KillsAfterConvergence, MaxSeconds   # noqa
from glompo.hunters import BaseHunter                                           # noqa
from glompo.generators import BaseGenerator                                     # noqa
from glompo.core.checkpointing import CheckpointingControl                      # noqa

try:
    sys.getsizeof(1)
except TypeError:                       # not available in PyPy
    _ol.deepsizeof = lambda *a, **k: 1000
    getattr(_ol, 'getsizeof', None) and setattr(_ol, 'getsizeof', lambda *a: 1000)

SCRIPTS = {}        # opt_id -> function(optimizer, function to minimise), default below
STARTED = {}        # opt_id -> x0
STOPPED = []        # opt_ids which received a stop signal


class Opt(BaseOptimizer):
    """ Follows SCRIPTS[opt_id]. """

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.stop = False
        self.n_done = 0
        self.trail = []

    def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
        STARTED[self.opt_id] = list(x0)
        self.f = function
        SCRIPTS.get(self.opt_id, SCRIPTS.get(None, lambda o: o.evals([1.0])))(self)
        return MinimizeResult()

    def evals(self, values, pause=0.0, until_stop=False):
        """ Evaluates a point for each of the values (continuing where it was in a restart). """
        values = list(values)
        while self.n_done < len(values) and not self.stop:
            v = values[self.n_done]
            fx = self.f(np.array([float(self.opt_id), float(v)]))
            self.trail.append(fx)
            self.n_done += 1
            if pause:
                time.sleep(pause)
            self.check_messages()
            self._pause_signal.wait()

    def idle(self, seconds):
        """ Waits for signals without evaluating anything. """
        t = time.time()
        while not self.stop and time.time() - t < seconds:
            time.sleep(0.01)
            self.check_messages()
            self._pause_signal.wait()

    def done(self, text='Optimizer convergence'):
        self.message_manager(0, text)
        self.check_messages()

    def callstop(self, reason=''):
        STOPPED.append(self.opt_id)
        self.stop = True


class OtherOpt(Opt):
    pass


def task(x):
    return float(x[1])


class Gen(BaseGenerator):
    def __init__(self):
        super().__init__()
        self.n = 0

    def generate(self, manager):
        self.n += 1
        return np.array([float(self.n), 0.5])


class Never(BaseChecker):
    def __call__(self, manager):
        self.last_result = False
        return False


class Hunter(BaseHunter):
    """ hunter(log, hunter, victim) -> bool """

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def __call__(self, log, hunter_opt_id, victim_opt_id):
        self.last_result = bool(self.fn(log, hunter_opt_id, victim_opt_id))
        return self.last_result


def setup(work, selector=None, task=task, **kw):
    m = GloMPOManager()
    kw.setdefault('bounds', [(-1000.0, 1000.0)] * 2)
    kw.setdefault('max_jobs', 2)
    kw.setdefault('backend', 'threads')
    kw.setdefault('x0_generator', Gen())
    kw.setdefault('summary_files', 0)
    kw.setdefault('overwrite_existing', True)
    m.setup(task=task, opt_selector=selector or CycleSelector(Opt), working_dir=work, **kw)
    return m


def scratch():
    d = Path(tempfile.mkdtemp(prefix='demo_')).resolve()
    import atexit
    atexit.register(shutil.rmtree, d, True)
    return d


def run(m, limit=60):
    """ start_manager in a thread so that a run which never ends is noticed. """
    out = {}

    def go():
        try:
            out['result'] = m.start_manager()
        except BaseException as e:
            out['exc'] = e
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(limit)
    if t.is_alive():
        bad('the run does not end')
    if 'exc' in out:
        raise out['exc']
    return out['result']


def bad(msg):
    print('BROKEN:', msg)
    sys.stdout.flush()
    os._exit(1)


def good():
    print('as promised')
    sys.stdout.flush()
    os._exit(0)


def check(cond, msg):
    if not cond:
        bad(msg)
