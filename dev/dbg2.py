"""dev/dbg2.py MOD INST PATTERN : dump the facts of the failing query whose last formula matches PATTERN"""
import sys; sys.path[:0]=['/verif/rayvc']
import world, contract, importlib, sym, lia
m=importlib.import_module('contracts.'+sys.argv[1])
w=world.World(extra=m.extra() if hasattr(m,'extra') else None)
I=[i for i in m.instances() if sys.argv[2] in i.name][0]
o=sym.prove1
def p1(asm,ng,fs,tm):
    r=o(asm,ng,fs,tm)
    if r[0]!='proved' and sys.argv[3] in str(fs[-1]):
        print('----',r[0])
        for f in fs: print('  F',f)
        sys.stdout.flush()
        fs=fs+list({x.get_id(): x for f in fs for x in sym.int_axioms(f)}.values())
        L=lia.Lia(True); print(L.unsat(fs,30000),L.res,L.opaque); print(L.sv.model() if L.res==lia.z3.sat else ''); print(L.sv.to_smt2()); print([(k,str(lia.ATOM[k].e)[:100],L.interval(k)) for k in L.ints])
        sys.exit()
    return r
sym.prove1=p1
r=contract.verify(w,I,contract.BASE); print(r.ok,r.error,r.t)
