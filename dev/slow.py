import sys; sys.path[:0]=['/verif/rayvc']
import world, contract, importlib, time, engine, sym
m=importlib.import_module('contracts.'+sys.argv[1])
w=world.World(extra=m.extra() if hasattr(m,'extra') else None)
I=[i for i in m.instances() if sys.argv[2] in i.name][0]
TH=float(sys.argv[3]) if len(sys.argv)>3 else .5
t0=time.time()
def wrap(cls,n):
    f=getattr(cls,n)
    def g(*a,**k):
        t=time.time(); r=f(*a,**k); d=time.time()-t
        if d>TH: print("%.1f %s %.2f %s %s"%(time.time()-t0,n,d,str(r)[:40],str(a[2] if len(a)>2 else '')[:300].replace("\n"," ")),"pc",len(a[1].pc),"facts",len(a[1].facts),flush=True)
        return r
    setattr(cls,n,g)
wrap(engine.Engine,'prove'); wrap(engine.Engine,'feasible')
r=contract.verify(w,I,contract.BASE); print(I.name,r.ok,r.error,r.t)
