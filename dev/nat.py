import sys; sys.path[:0]=['/verif/rayvc']
import time, world, contract, importlib, native, tempfile
m=importlib.import_module('contracts.'+sys.argv[1]); pat=sys.argv[2]; secs=float(sys.argv[3])
w=world.World(extra=m.extra() if hasattr(m,'extra') else None); L=[i for i in m.instances() if pat in i.name][:int(sys.argv[4]) if len(sys.argv)>4 else 10]
st={}
for i in L:
    f=w.func(i.fn,i.module)
    if f.internal: st.setdefault(f.mod.name,set()).add(i.fn)
t=time.time(); q=len(sys.argv)>5; so=native.build_lib(w.dir,st,w.extra); print('lib',time.time()-t)
for i in L: print(i.name, str(native.replay(w,i,so,[],1,secs))[:400])
