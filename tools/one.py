"""Development: run one scenario and print the events.  one.py PROFILE SEED [ORACLE|-] [N events from the end]"""
import os, sys, json
sys.path.insert(0, '/verif')
from sim import session, gen, oracles
from sim.core import Choice
session.boot(os.environ.get('REPO', '/repo'))
prof, seed = sys.argv[1], int(sys.argv[2])
sc = gen.make(prof, seed)
print(json.dumps(sc, default=str)[:3000])
w = session.run_scenario(sc, Choice(seed))
n = int(sys.argv[4]) if len(sys.argv) > 4 else 40
for e in (w.events[-n:] if n > 0 else w.events[:-n]): print(str(e)[:230])
for o in w.sessions:
    print({k: (str(v)[:200]) for k, v in o.items() if k in ('stuck', 'crashed', 'setup_exc', 'run_exc', 'result', 'leftover', 'alive_at_return', 'seq0', 'return_t','skipped','state','loaded')})
for a in w.warnings: print('W', str(a)[:300])
if len(sys.argv) > 3 and sys.argv[3] != '-':
    for m in oracles.ALL[sys.argv[3]](w): print('!!', m[:600])
if os.environ.get('DBG'):
    exec(open(os.environ['DBG']).read())
