import sys; sys.path[:0]=['/verif/rayvc']
import world, contract, importlib, cProfile, pstats
m=importlib.import_module('contracts.'+sys.argv[1])
w=world.World(extra=m.extra() if hasattr(m,'extra') else None)
I=[i for i in m.instances() if sys.argv[2] in i.name][0]
p=cProfile.Profile(); p.enable(); r=contract.verify(w,I,contract.BASE); p.disable(); print(I.name,r.ok,r.error,r.t)
pstats.Stats(p).sort_stats('cumtime').print_stats(45)
