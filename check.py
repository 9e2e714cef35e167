#!/usr/bin/env python3
"""Decides one property by deterministic simulation:  check.py C05 [--tier quick|thorough] [--seed N] [--runs N]
Replays a recorded violation:                          check.py --replay FILE

Exit 0: the property held on every simulated run; 1: VIOLATION; 2: the machinery itself failed."""
import argparse
import collections
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim.plan import PLAN, jobs      # noqa: E402

PYTHON = os.environ.get('SIM_PYTHON', '/opt/venv-pypy/bin/python')
ENV = {'MPLBACKEND': 'agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'OPENBLAS_NUM_THREADS': '1',
       'OMP_NUM_THREADS': '1', 'TZ': 'UTC'}
HANG = 150.0        # seconds of real time after which a run without any scheduling point is given up
RECYCLE = 400       # runs per worker process


class Worker:
    """ A worker process; started lazily, replaced when it is old or hangs. """

    def __init__(self, repo, tmp):
        self.repo, self.tmp, self.p, self.n = repo, tmp, None, 0

    def start(self):
        env = {**os.environ, **ENV, 'GLOMPO_REPO': self.repo, 'SIM_TMP': self.tmp}
        mpl = '/opt/glompo-env/mpl'
        env['MPLCONFIGDIR'] = mpl if os.path.isdir(mpl) else os.path.join(self.tmp, 'mpl')
        self.err = open(os.path.join(self.tmp, f'err_{id(self)}.txt'), 'w+')
        self.p = subprocess.Popen([PYTHON, os.path.join(HERE, 'sim', 'worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True, env=env, cwd=HERE,
                                  start_new_session=True)
        self.q = queue.Queue()
        self.reader = threading.Thread(target=self._read, args=(self.p, self.q), daemon=True)
        self.reader.start()
        self.n = 0
        r = self._get(240)
        if r is None or not r.get('ready'):
            self.err.seek(0)
            raise RuntimeError(f'worker does not start: {r} {self.err.read()[-3000:]}')

    @staticmethod
    def _read(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def _get(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            return {'hang': True}
        return None if line is None else json.loads(line)

    def call(self, job, timeout=HANG):
        if self.p is None or self.n >= RECYCLE * (10 if job.get('prop') == 'C07' else 1):
            self.stop()
            self.start()
        self.n += 1
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
        except OSError:
            pass
        r = self._get(timeout)
        if r is None:
            self.err.seek(0)
            r = {'harness_error': f'worker died: {self.err.read()[-2000:]}', 'died': True}
        if r.get('hang') or r.get('died'):
            self.stop(kill=True)
        return r

    def stop(self, kill=False):
        if self.p is None:
            return
        try:
            if not kill:
                self.p.stdin.close()
                self.p.wait(5)
        except Exception:
            pass
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()
        self.p = None


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--repo', default=os.environ.get('GLOMPO_REPO', '/repo'))
    ap.add_argument('--replay')
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix='glompo_sim_')
    try:
        return replay(a, tmp) if a.replay else explore(a, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(a, tmp):
    with open(a.replay) as f:
        rep = json.load(f)
    w = Worker(a.repo, tmp)
    r = w.call({'sc': rep['scenario'], 'playback': rep['choices'], 'prop': rep['property'], 'full': True}, 600)
    w.stop()
    if 'msgs' not in r:
        print('replay failed:', r)
        return 2
    for e in r['tail'][-30:]:
        print(e)
    same = r['hash'] == rep['hash']
    print(f"replayed {rep['property']}: identical history: {same}")
    for m in r['msgs']:
        print('  ', m)
    if r['msgs']:
        print(f"VIOLATION property={rep['property']} replay={a.replay}")
        return 1
    return 0


def explore(a, tmp):
    t0 = time.time()
    prop = a.property
    seed = a.seed
    todo = jobs(prop, a.tier, seed)
    if a.runs:
        todo = todo[:a.runs]
    cap = 330 if a.tier == 'quick' else 800
    print(f'{prop}: deterministic simulation, seed {seed}, tier {a.tier}, {len(todo)} runs', flush=True)
    known = [k for k in load_known()['findings'] if k['property'] == prop]
    results, lock, stop = [], threading.Lock(), threading.Event()
    nxt = iter(range(len(todo)))
    bad, errors, hangs, suppressed = [], [], [], collections.Counter()

    def lane(k):
        w = Worker(a.repo, tmp)
        try:
            while not stop.is_set():
                with lock:
                    i = next(nxt, None)
                if i is None or time.time() - t0 > cap:
                    break
                prof, s = todo[i]
                r = w.call({'profile': prof, 'seed': s, 'prop': prop, 'describe': i < 3})
                with lock:
                    if r.get('hang'):
                        hangs.append((prof, s))
                        if len(hangs) >= 2 or prop == 'C01':
                            stop.set()
                    elif 'harness_error' in r:
                        errors.append((prof, s, r['harness_error']))
                        if len(errors) > 20:
                            stop.set()
                    else:
                        r['i'] = i
                        results.append(r)
                        fresh = []
                        for m in r['msgs']:
                            hit = next((f for f in known if f.get('match') and re.search(f['match'], m)), None)
                            if hit:
                                suppressed[hit['what']] += 1
                            else:
                                fresh.append(m)
                        if fresh:
                            bad.append({**r, 'msgs': fresh})
                            stop.set()
        except Exception as e:      # noqa
            with lock:
                errors.append(('', 0, repr(e)))
            stop.set()
        finally:
            w.stop()

    lanes = [threading.Thread(target=lane, args=(k,)) for k in range(a.workers)]
    [t.start() for t in lanes]
    [t.join() for t in lanes]
    explore_s = time.time() - t0

    # determinism: the first runs once more, in a fresh process
    again = []
    mismatch = []
    if not bad:
        w = Worker(a.repo, tmp)
        for r in sorted(results, key=lambda r: r['i'])[:6 if a.tier == 'quick' else 60]:
            r2 = w.call({'profile': r['profile'], 'seed': r['seed'], 'prop': prop})
            again.append(r['seed'])
            if r2.get('hash') != r['hash']:
                mismatch.append((r['profile'], r['seed']))
        w.stop()

    known_ids = {}
    for f in known:
        if f.get('match'):
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
            known_ids[f['what']] = suppressed[f['what']]

    code = 0
    replay_path = None
    if prop == 'C01' and hangs and not bad:
        code = 1
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        replay_path = os.path.join(HERE, 'replays', f'{prop}_{seed}.json')
        with open(replay_path, 'w') as f:
            json.dump({'property': prop, 'profile': hangs[0][0], 'seed': hangs[0][1], 'hash': None, 'choices': '',
                       'message': 'a task computes for ever without giving control back'}, f)
        print(f'run {hangs[0]} computes for ever without reaching a scheduling point')
        print(f'VIOLATION property={prop} replay={replay_path}')
    if bad:
        code = 1
        bad.sort(key=lambda r: (r['steps']))
        r = bad[0]
        print(f"run profile={r['profile']} seed={r['seed']} ({r['steps']} steps):")
        for m in r['msgs'][:5]:
            print('   ', m[:1500])
        rep = {'property': prop, 'profile': r['profile'], 'seed': r['seed'], 'messages': r['msgs'],
               'scenario': r['sc'], 'choices': r['choices'], 'hash': r['hash'], 'minimised': False, 'tail': r['tail']}
        if not a.no_minimise:
            w = Worker(a.repo, tmp)
            limit = 60 if a.tier == 'quick' else 240
            mres = w.call({'cmd': 'minimise', 'prop': prop, 'sc': r['sc'], 'choices': r['choices'], 'msgs': r['msgs'],
                           'limit': limit}, limit + 150)
            w.stop()
            if mres.get('reproducible'):
                rep.update(scenario=mres['sc'], choices=mres['choices'], messages=mres['msgs'], hash=mres['hash'],
                           minimised=True, events=mres['events'],
                           minimisation={k: mres[k] for k in ('tried', 'steps', 'nonzero', 'draws')})
                print(f"minimised: {mres['steps']} steps, {mres['nonzero']} of {mres['draws']} decisions not neutral, "
                      f"{len(mres['events'])} events, after {mres['tried']} trials")
                for m in mres['msgs'][:3]:
                    print('   ', m[:1500])
            else:
                rep['reproducible'] = bool(mres.get('reproducible'))
                print('not minimised:', str(mres)[:300])
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        replay_path = os.path.join(HERE, 'replays', f'{prop}_{seed}.json')
        with open(replay_path, 'w') as f:
            json.dump(rep, f, indent=1, default=str)
        print(f'VIOLATION property={prop} replay={replay_path}')
    elif code == 0 and (errors or not results):
        code = 2
    for e in errors[:3]:
        print('harness error', e[0], e[1], e[2][-1500:])
    if hangs:
        print('runs given up (no scheduling point reached in real time):', hangs[:5])
    if mismatch:
        print('WARNING: runs which did not repeat exactly:', mismatch)
    if not a.no_evidence:
        write_evidence(a, prop, seed, results, todo, again, mismatch, bad, known_ids, errors, hangs, explore_s,
                       time.time() - t0)
    print(f"{prop}: {len(results)} runs in {explore_s:.0f} s, {'held' if code == 0 else 'exit ' + str(code)}")
    return code


def write_evidence(a, prop, seed, results, todo, again, mismatch, bad, known_ids, errors, hangs, explore_s, wall):
    from sim.plan import NONTRIVIAL, COMPONENTS
    results = sorted(results, key=lambda r: r['i'])
    faults, reach, ends, profiles = (collections.Counter() for _ in range(4))
    nontrivial = set()
    need = NONTRIVIAL[prop]
    for r in results:
        faults.update(r['faults'])
        reach.update(r['reach'])
        ends.update(r['ends'])
        profiles[r['profile']] += 1
        if any(r['reach'].get(k) for k in need[0]):
            nontrivial.add(r['sig'])
    n = len(results)
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': n, 'distinct_nontrivial': len(nontrivial),
              'rule': 'one case is one simulated execution, generated from (profile, seed); distinct: by the hash of the '
                      'order in which tasks produced events; non-trivial: ' + need[1],
              'samples': [r['sample'] for r in results if 'sample' in r][:3],
              'runs_per_hour': round(n / max(explore_s, 1e-9) * 3600),
              'seeds_per_hour': round(n / max(explore_s, 1e-9) * 3600),
              'planned_runs': len(todo), 'profiles': dict(profiles),
              'simulated_seconds': round(sum(r['time'] for r in results), 1),
              'scheduling_points': sum(r['steps'] for r in results),
              'task_switches': sum(r['switches'] for r in results),
              'decisions_drawn': sum(r['draws'] for r in results),
              'distinct_interleavings': len({r['sig'] for r in results}),
              'distinct_histories': len({r['hash'] for r in results}),
              'faults_injected': dict(sorted(faults.items())), 'reached': dict(sorted(reach.items())),
              'session_ends': dict(ends),
              'determinism': {'repeated_in_fresh_process': len(again), 'different': len(mismatch)},
              'harness_errors': len(errors), 'given_up': len(hangs),
              'known_findings_seen': known_ids, 'components': COMPONENTS.get(prop, COMPONENTS['default'])},
          'assumptions': COMPONENTS['assumptions'], 'wall_s': round(wall, 1), 'violations': len(bad)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
