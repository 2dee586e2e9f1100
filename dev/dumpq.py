# dumpq.py MOD INST SUBSTR N FILE: saves the Nth prove query whose goal contains SUBSTR (smt2, goal last)
import sys; sys.path[:0]=['/verif/rayvc']
import world, contract, importlib, sym, z3
m=importlib.import_module('contracts.'+sys.argv[1])
w=world.World(extra=m.extra() if hasattr(m,'extra') else None)
I=[i for i in m.instances() if sys.argv[2] in i.name][0]
N=[int(sys.argv[4])]
o=sym.prove
def pr(a,g,t=20000):
    if sys.argv[3] in str(g):
        if N[0]==0:
            asm=[sym.zb(x) for x in a if x is not True]; goal=sym.zb(g)
            exec(open('/tmp/q.py').read()); sys.exit()
        N[0]-=1
    return o(a,g,t)
sym.prove=pr
contract.verify(w,I,contract.BASE)
