# dump.py MOD INST SUBSTR N: explains the Nth prove query whose goal contains SUBSTR
import sys; sys.path[:0]=['/verif/rayvc']
import world, contract, importlib, time, engine, sym, lia, z3
m=importlib.import_module('contracts.'+sys.argv[1])
w=world.World(extra=m.extra() if hasattr(m,'extra') else None)
I=[i for i in m.instances() if sys.argv[2] in i.name][0]
N=[int(sys.argv[4])]
o=sym.prove
def pr(a,g,t=20000):
    if sys.argv[3] in str(g):
        if N[0]==0:
            fs=[sym.zb(x) for x in a if x is not True]+[sym.zb(sym.Not(g))]
            for f in fs: print("  ",str(z3.simplify(f)).replace("\n"," ")[:600])
            print("GOAL",g)
            L=lia.Lia(); t0=time.time(); r=L.unsat(fs); print("lia",r,L.res,"opaque",L.opaque,time.time()-t0)
            for f,p in zip(fs,L.pure):
                if not p: print("  impure:",str(f).replace("\n"," ")[:300])
            t0=time.time(); r,s=sym.check_sat(fs,60000); print("bv",r,time.time()-t0)
            open("/tmp/q.smt2","w").write(s.to_smt2()); sys.exit()
        N[0]-=1
    return o(a,g,t)
sym.prove=pr
contract.verify(w,I,contract.BASE)
