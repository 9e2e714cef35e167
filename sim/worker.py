"""Worker process: executes jobs read from stdin, one JSON line each, and answers with one JSON line each."""
import base64
import hashlib
import json
import os
import re
import sys
import traceback
import zlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def klass(msg):
    """ Class of a violation: the message without its numbers. """
    return re.sub(r'[-+]?\d[\d.e+-]*', '#', msg)[:60]


def pack(draws):
    if max(draws or [0]) < 256:
        return base64.b64encode(zlib.compress(bytes(bytearray(draws)), 9)).decode()
    return 'J' + base64.b64encode(zlib.compress(json.dumps(draws).encode(), 9)).decode()


def unpack(s):
    if s.startswith('J'):
        return json.loads(zlib.decompress(base64.b64decode(s[1:])))
    return list(zlib.decompress(base64.b64decode(s)))


class Runner:
    def __init__(self, repo, base_tmp):
        from . import session, gen, oracles, reach, core, osim
        self.session, self.gen, self.oracles, self.core = session, gen, oracles, core
        self.reach = reach.reach
        self.REAL = osim.REAL
        self.base_tmp = base_tmp
        session.boot(repo)

    def execute(self, sc, seed=None, playback=None):
        ch = self.core.Choice(seed, playback)
        if sc.get('kind') == 'direct':
            from . import direct
            return direct.run(sc, ch, self.base_tmp)
        return self.session.run_scenario(sc, ch, self.base_tmp)

    def judge(self, w, prop):
        seen, out = set(), []
        for m in self.oracles.ALL[prop](w):
            m = str(m)
            if klass(m) not in seen:
                seen.add(klass(m))
                out.append(m)
        return out

    def run(self, job):
        sc = job.get('sc') or self.gen.make(job['profile'], job['seed'])
        w = self.execute(sc, job.get('seed', 0), job.get('playback') and unpack(job['playback']))
        msgs = self.judge(w, job['prop'])
        r = {'profile': job.get('profile'), 'seed': job.get('seed'), 'hash': w.sim.hash.hexdigest(),
             'sig': w.sim.sched_sig.hexdigest(), 'steps': w.sim.steps, 'switches': w.sim.switches,
             'time': w.sim.now, 'faults': dict(w.sim.fault_counts), 'reach': self.reach(w), 'msgs': msgs,
             'ends': [self.ending(o) for o in w.sessions], 'draws': len(w.choice.log)}
        if msgs or job.get('full'):
            r['choices'] = pack(w.choice.log)
            r['sc'] = sc
            r['tail'] = [str(e)[:200] for e in w.events[-60:]]
        if job.get('describe'):
            r['sample'] = self.describe(sc, w)
        return r

    @staticmethod
    def ending(o):
        if o.get('stuck'):
            return 'stuck'
        if o.get('setup_exc') is not None:
            return 'refused'
        if o.get('crashed'):
            return 'crashed'
        if o.get('skipped'):
            return 'skipped'
        if o.get('run_exc') is not None:
            return 'raised'
        r = o.get('result')
        e = str(r.stats.get('end_cond')) if r is not None and r.stats else 'None'
        return 'exit condition' if e.startswith('[') or '=' in e else e[:40]

    @staticmethod
    def describe(sc, w):
        if sc.get('kind') == 'direct':
            return {**{k: v for k, v in sc.items() if k not in ('opts', 'sessions')},
                    'history': [str(e)[:120] for e in w.events[:12]], 'n_events': len(w.events)}
        s = sc['sessions'][0]
        return {'profile': sc.get('profile'), 'seed': sc.get('seed'),
                'backend': s.get('backend'), 'max_jobs': s.get('max_jobs'), 'checker': s.get('checker'),
                'optimizers': sc.get('opts', [])[:3], 'events': s.get('events'), 'sessions': len(sc.get('sessions', [])),
                'history': [str(e)[:120] for e in w.events[:12]], 'n_events': len(w.events)}

    # ------------------------------------------------------------------------------------------ minimising
    def minimise(self, job):
        real_time = self.REAL['time']
        t_end = real_time() + job.get('limit', 60)
        prop = job['prop']
        sc, draws = job['sc'], unpack(job['choices'])
        target = klass(job['msgs'][0])
        best = {'sc': sc, 'draws': draws}
        tried = 0

        def fails(sc, draws):
            nonlocal tried
            tried += 1
            try:
                w = self.execute(json.loads(json.dumps(sc)), None, draws)
                ms = self.judge(w, prop)
            except Exception:       # noqa   an ill-formed reduction
                return None
            hit = [m for m in ms if klass(m) == target]
            return (w, hit) if hit else None

        r = fails(sc, draws)
        if not r:
            return {'reproducible': False}
        draws = best['draws'] = r[0].choice.log

        def attempt(sc2, draws2):
            if real_time() > t_end:
                return False
            r = fails(sc2, draws2)
            if r:
                best['sc'], best['draws'] = sc2, trim(r[0].choice.log)
                return True
            return False

        def trim(log):
            log = list(log)
            while log and log[-1] == 0:
                log.pop()
            return log

        # 1. simpler scenario
        changed = True
        while changed and real_time() < t_end:
            changed = False
            for cand in reductions(best['sc']):
                if real_time() > t_end:
                    break
                if attempt(cand, best['draws']):
                    changed = True
                    break
        # 2. neutral decisions
        n = len(best['draws'])
        size = max(n // 2, 1)
        while size >= 1 and real_time() < t_end:
            i = 0
            while i < len(best['draws']) and real_time() < t_end:
                d = best['draws']
                if any(d[i:i + size]):
                    attempt(best['sc'], d[:i] + [0] * len(d[i:i + size]) + d[i + size:])
                i += size
            if size == 1:
                break
            size = max(size // 4, 1) if size > 4 else size // 2
        w, hit = fails(best['sc'], best['draws'])
        return {'reproducible': True, 'sc': best['sc'], 'choices': pack(best['draws']), 'msgs': hit,
                'hash': w.sim.hash.hexdigest(), 'events': [str(e)[:240] for e in w.events], 'tried': tried,
                'steps': w.sim.steps, 'nonzero': sum(1 for d in best['draws'] if d), 'draws': len(best['draws'])}


def reductions(sc):
    """ Simpler variants of a scenario. """
    def clone():
        return json.loads(json.dumps(sc))

    if sc.get('kind') == 'direct':
        for k, v in list(sc.items()):
            if isinstance(v, list) and len(v) > 1:
                for i in range(len(v)):
                    c = clone()
                    del c[k][i]
                    yield c
            elif isinstance(v, int) and k not in ('seed',) and v > 1:
                c = clone()
                c[k] = v // 2
                yield c
        return
    if len(sc['sessions']) > 1:
        c = clone()
        c['sessions'].pop()
        yield c
    for i, s in enumerate(sc['sessions']):
        for j in range(len(s.get('events') or [])):
            c = clone()
            del c['sessions'][i]['events'][j]
            yield c
        for j in range(len(s.get('on_ckpt') or [])):
            c = clone()
            del c['sessions'][i]['on_ckpt'][j]
            yield c
        for k in ('hunter', 'share', 'generator', 'ckpt', 'status_freq', 'aggressive', 'end_timeout', 'sf', 'detailed',
                  'split', 'disk', 'force_after'):
            if s.get(k) and s.get('kind') != 'load':
                c = clone()
                for t in c['sessions']:
                    t.pop(k, None)
                    if k == 'sf':
                        t['sf'] = 0
                    if k == 'hunter':
                        t.pop('hunt_freq', None)
                yield c
        sel = s.get('selector') or {}
        if len(sel.get('entries', [])) > 1 and sel.get('type') != 'chain':
            c = clone()
            for t in c['sessions']:
                if t.get('selector'):
                    t['selector']['entries'] = t['selector']['entries'][:1]
            yield c
        mj = s.get('max_jobs', 1)
        if mj > 1 and s.get('kind') != 'load':
            for v in (1, mj // 2, mj - 1):
                if 0 < v < mj:
                    c = clone()
                    for t in c['sessions']:
                        t['max_jobs'] = v
                    yield c
    for k in ('opt_speed', 'mng_speed', 'ident_reuse', 'shuffle_dirs', 'log_level'):
        if sc.get(k):
            c = clone()
            del c[k]
            yield c
    if sc.get('jitter'):
        c = clone()
        c['jitter'] -= 1
        yield c
    if len(sc['opts']) > 1:
        for j in range(len(sc['opts'])):
            c = clone()
            del c['opts'][j]
            yield c
    for j, o in enumerate(sc['opts']):
        for k in list(o):
            if k in ('n', 'dur'):
                continue
            c = clone()
            del c['opts'][j][k]
            yield c
        if o.get('n', 0) > 1:
            c = clone()
            c['opts'][j]['n'] = o['n'] // 2
            yield c


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    runner = Runner(os.environ.get('GLOMPO_REPO', '/repo'), os.environ['SIM_TMP'])
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        try:
            r = runner.minimise(job) if job.get('cmd') == 'minimise' else runner.run(job)
        except Exception:
            r = {'harness_error': traceback.format_exc()[-3000:], 'profile': job.get('profile'), 'seed': job.get('seed')}
        out.write(json.dumps(r, default=str) + '\n')
        out.flush()


if __name__ == '__main__':
    from sim import worker
    worker.main()
