import sys; sys.path[:0]=['/verif/rayvc']
import world, contract, importlib
m=importlib.import_module('contracts.'+sys.argv[1])
w=world.World(extra=m.extra() if hasattr(m,'extra') else None)
I=[i for i in m.instances() if sys.argv[2] in i.name][0]
r=contract.verify(w,I,contract.BASE); print(I.name,r.ok,r.t,r.inl); print(r.error)
for o in r.bad: print(o.name,o.status,str(o.info)[:600])
