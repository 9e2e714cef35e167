"""Development tool: runs scenarios of a profile against oracles.  explore.py PROFILE N [START] [ORACLES,..]"""
import collections, os, sys, time, json, traceback
sys.path.insert(0, '/verif')
from sim import session, gen, oracles
from sim.core import Choice
session.boot(os.environ.get('REPO', '/repo'))
from sim.osim import REAL
prof, n = sys.argv[1], int(sys.argv[2])
start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
ors = sys.argv[4].split(',') if len(sys.argv) > 4 else [prof.upper()] if prof.upper() in oracles.ALL else list(oracles.ALL)
if ors == ['all']: ors = list(oracles.ALL)
t0 = REAL['time'](); cnt = collections.Counter(); ex = {}
reasons = collections.Counter(); faults = collections.Counter()
for seed in range(start, start + n):
    sc = gen.make(prof, seed)
    try:
        w = session.run_scenario(sc, Choice(seed))
    except Exception:
        print('HARNESS', seed); traceback.print_exc(); continue
    for o in w.sessions:
        r = 'stuck' if o.get('stuck') else 'setup' if o.get('setup_exc') else 'crashed' if o.get('crashed') else \
            'skipped' if o.get('skipped') else 'raise' if o.get('run_exc') else str(o['result'].stats.get('end_cond') if o.get('result') and o['result'].stats else None).split('\n')[0][:25]
        reasons[r] += 1
        if r == 'setup' and cnt['setup'] < 3: cnt['setup'] += 1; print(seed, o['setup_tb'][-800:])
    faults.update(w.sim.fault_counts)
    for name in ors:
        try:
            msgs = list(oracles.ALL[name](w))
        except Exception:
            print('ORACLE', name, seed); traceback.print_exc(); continue
        for m in msgs:
            k = name + ' ' + ''.join(c for c in m[-160:] if not c.isdigit())[-70:]
            cnt[k] += 1
            ex.setdefault(k, []).append((seed, m))
print('time/run', (REAL['time']() - t0) / n, dict(reasons), dict(faults))
for k, v in cnt.most_common(40):
    if k == 'setup': continue
    print(v, k.split()[0], [s for s, _ in ex[k]][:6], '\n     ', ex[k][0][1][:700])
