import sys,os,time; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
import importlib
from vp import runner
os.makedirs('/tmp/w/scr',exist_ok=True)
mod=importlib.import_module(sys.argv[1])
for c in mod.CONTRACTS:
    if len(sys.argv)>2 and sys.argv[2] not in c.cid: continue
    t=time.time(); o=runner.run_contract(c,'/tmp/w/scr'); print(o.cid,o.status,o.obligations,o.discharged,o.how,o.failed[:5],o.reason,o.replay,o.bounded,round(time.time()-t,2))
