import sys, os; sys.path[:0]=['/verif/rayvc']
import time, world, contract, importlib, multiprocessing as mp
mods=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''
m=importlib.import_module('contracts.'+mods)
w=world.World(extra=m.extra() if hasattr(m,'extra') else None); L=[i for i in m.instances() if pat in i.name]
def f(k):
    I=L[k]
    try:
        r=contract.verify(w,I,contract.BASE,budget=100)
        return (I.name,r.ok,r.t,len(r.obls),r.error,[(o.name,o.status,o.detail[:200],str(o.model)[:300]) for o in r.bad][:4])
    except Exception as e: return (I.name,False,0,0,'EXC '+repr(e),[])
if __name__=='__main__':
    t=time.time()
    # warm up module parsing in the parent
    for fn in {(i.fn,i.module) for i in L}:
        try: w.func(*fn)
        except Exception: pass
    with mp.Pool(8,maxtasksperchild=40) as p:
        res=p.map(f,range(len(L)),chunksize=1)
    bad=[r for r in res if not r[1]]
    for r in sorted(bad): print('BAD %s %.1f %d %s %s'%(r[0],r[2],r[3],(r[4] or '')[:300],r[5] and (r[5][0][0],r[5][0][1],r[5][0][2][:int(os.environ.get('DW','100'))],len(r[5]))))
    print(len(res),'bad',len(bad),'%.1fs'%(time.time()-t),'cpu %.1f'%sum(r[2] for r in res),'slowest',sorted([(round(r[2],1),r[0]) for r in res])[-5:])
