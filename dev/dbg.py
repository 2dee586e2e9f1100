import sys; sys.path[:0]=['/verif/rayvc']
import world, contract, importlib, sym, lia
m=importlib.import_module('contracts.'+sys.argv[1])
w=world.World(extra=m.extra() if hasattr(m,'extra') else None)
I=[i for i in m.instances() if sys.argv[2] in i.name][0]
o=sym.prove1
def p1(asm,ng,fs,tm):
    import time; t=time.time(); r=o(asm,ng,fs,min(tm,3000))
    if r[0]!='proved' or time.time()-t>1:
        print('----',r[0],time.time()-t)
        if len(sys.argv)>3:
            for f in fs: print('  F',f)
        fs=fs+list({x.get_id(): x for f in fs for x in sym.int_axioms(f)}.values()); print(len(fs))
        L=lia.Lia(True); print('lia',L.unsat(fs,60000),L.res,L.opaque); print(L.sv.model() if L.res==lia.z3.sat else ''); print(len(L.side)); open('/tmp/q.smt2','w').write(L.sv.to_smt2()); print([(k,str(lia.ATOM[k].e)[:100]) for k in L.ints]) if len(sys.argv)>3 else 0 
        for f in fs:
            x=lia.form(f)
            def walk(x):
                if x[0]=='c':
                    if not(L.fits(x[3]) and L.fits(x[4])):
                        print('   OPQ',str(x[6])[:300].replace('\n',' '))
                        for T in (x[3],x[4]): print('      ',T[0],[(' '.join(str(lia.ATOM[k].e).split())[:150],c,L.interval(k)) for k,c in T[1]],T[2])
                elif x[0]=='o': print('   OPQ o',str(x[2])[:200].replace('\n',' '))
                else:
                    for y in x[1:]:
                        if isinstance(y,tuple): walk(y)
            walk(x)
        sys.exit()
    return r
sym.prove1=p1
r=contract.verify(w,I,contract.BASE); print(r.ok,r.error,r.t)
