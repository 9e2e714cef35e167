"""Writes MANIFEST.json from properties.jsonl and sim/plan.py."""
import json, sys
sys.path.insert(0, '/verif')
from sim.plan import PLAN
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {'C26': 'Benchmark functions are pure functions of their input vector: no schedule, clock, fault, I/O or state for a '
             'simulation to vary; the technique cannot address them.',
      'C27': 'The wrapped optimizers (Nevergrad, SciPy/GFLS/ParAMS interfaces) need packages which are not installed here, '
             'so their code cannot be executed, in or out of a simulation.'}
checks = []
for p in props:
    if p['id'] in PLAN:
        extra = PLAN[p['id']].get('note', '')
        checks.append({'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} --tier quick",
                       'thorough_cmd': f"python3 check.py {p['id']} --tier thorough",
                       'evidence_file': f"evidence/{p['id']}.json",
                       'technique': 'deterministic simulation with fault injection (seeded schedules and faults, history oracle)',
                       'level': 'exploration',
                       'level_note': ('Seeded search over schedules and faults of the real code in a simulator; a clean run is '
                                      'evidence over the sampled executions, not a proof. ' + extra).strip()})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'Not claimed: no check has been built yet.')}
      for p in props if p['id'] not in PLAN]
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: all seams are the Python standard library modules glompo uses. '
                    'python3 check.py --replay FILE replays a recorded violation.'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
