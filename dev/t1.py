import sys; sys.path[:0]=['/verif/rayvc']
import time, world, contract, importlib
m=importlib.import_module('contracts.'+sys.argv[1])
t=time.time(); w=world.World(extra=m.extra() if hasattr(m,'extra') else None); print('build',time.time()-t)
pat=sys.argv[2] if len(sys.argv)>2 else ''
n=0; bad=0
for I in m.instances():
    if pat not in I.name: continue
    r=contract.verify(w,I,contract.BASE); n+=1
    if not r.ok:
        bad+=1
        print('BAD',I.name,'%.2f'%r.t,len(r.obls),r.error or [(o.name,o.status,o.detail[:300]) for o in r.bad][:4], r.bad and str(r.bad[0].model)[:900])
    elif len(sys.argv)>3: print('ok',I.name,'%.2f'%r.t,len(r.obls),r.paths)
print(n,bad,time.time()-t)
