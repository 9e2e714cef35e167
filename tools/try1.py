import sys, time, json
sys.path.insert(0,'/verif')
from sim import session
from sim.core import Choice
session.boot()
t=time.time
def sc(seed, backend, sf, ck=False):
    return {'seed':seed,'jitter':1,'dims':2,'opts':[{'n':10,'dur':1e-3},{'n':20,'dur':2e-3}],
     'task':{'vals':{'mode':'rand','seed':seed}},
     'sessions':[{'backend':backend,'max_jobs':3,'selector':{'type':'cycle','entries':[['A',{'workers':1},None],['B',None,None,'bare']]},
        'checker':['MaxFuncCalls',100],'sf':sf,'generator':['seq'], 'ckpt': {'checkpoint_iter_frequency':40,'naming_format':'chk_%(count)'} if ck else None}]
      + ([{'kind':'load','overrides':{'convergence_checker':['MaxFuncCalls',200]}}] if ck else [])}
R=session.REAL if hasattr(session,'REAL') else None
from sim.osim import REAL
for backend,sf,ck in [('threads',0,0),('processes',0,0),('threads',3,0),('threads',1,0),('threads',2,0),('threads',0,1),('processes',0,1),('processes',3,1)]:
    t0=REAL['time'](); n=int(sys.argv[1])
    for seed in range(n):
        w=session.run_scenario(sc(seed,backend,sf,ck),Choice(seed))
        if seed==0 or seed==n-1:
            for o in w.sessions:
                print(o.kind,{k:o.get(k) for k in ('returned','stuck','setup_tb','run_tb','leftover','ckpts','h5_error','yaml_error')}, o.get('result') and o['result'].stats, w.sim.steps, len(w.events), w.sim.now)
            print(w.warnings[:3], w.sim.uncaught_list[:2])
    print(backend,sf,ck,(REAL['time']()-t0)/n)
