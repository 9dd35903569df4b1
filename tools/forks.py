import sys,os; sys.setrecursionlimit(8000)
sys.path.insert(0,'/verif')
from sx import runner
prop,case=sys.argv[1:3]
mod=runner.load_symbolic(prop)
from sx import engine
import collections,traceback
C=collections.Counter()
orig=engine.Engine.decide
def dec(self,cond):
    n=len(self.events)
    r=orig(self,cond)
    if len(self.events)>n:
        fs=[f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in traceback.extract_stack()[:-1] if 'dbg' not in f.filename and 'call' != f.name][-6:]
        C[" < ".join(reversed(fs))]+=1
    return r
engine.Engine.decide=dec
op=engine.Engine.pin
def pin(self,*a,**k):
    n=len(self.events)
    r=op(self,*a,**k)
    if len(self.events)>n:
        fs=[f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in traceback.extract_stack()[:-1] if 'call' != f.name][-6:]
        C["PIN "+" < ".join(reversed(fs))]+=1
    return r
engine.Engine.pin=pin
import time
cfg=dict(runner.TIERS['quick']);cfg['deadline']=time.time()+100
cs=[c for c in mod.cases('quick') if case in c['name']][0]
r=runner.run_case(mod,cs,cfg,1)
print({k:r[k] for k in ('name','paths','queries','wall','incomplete')})
for k,n in C.most_common(12): print(n,k)
