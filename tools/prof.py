import sys,time,collections
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
pid=sys.argv[1]; N=int(sys.argv[2])
from pbt import core
from hypothesis import given,settings,HealthCheck,Phase,seed
P=core.load_prop(pid)
w=core.Worker(P.modules,P.heap,P.stack)
T=collections.Counter()
oc=w.call
def call(*a,**k):
    t=time.time()
    try: return oc(*a,**k)
    finally:
        dt=time.time()-t
        T['worker']+=dt; T['n']+=1
w.call=call
L=collections.Counter()
slow=[]
@seed(int(sys.argv[3]) if len(sys.argv)>3 else 1)
@settings(max_examples=N,database=None,deadline=None,suppress_health_check=list(HealthCheck),phases=[Phase.generate])
@given(P.strategy('quick'))
def t(c):
    t0=time.time()
    r=P.check(w,c); 
    dt=time.time()-t0
    T['check']+=dt
    slow.append((dt,str(c)[:200]))
    for l in r[1]: L[l]+=1
    L['nontrivial']+=bool(r[0])
t0=time.time(); 
try: t()
except core.Violation as e: print('VIOL',e)
print('total',time.time()-t0,dict(T)); print(dict(L))
slow.sort(reverse=True); print(slow[:4])
w.kill()
