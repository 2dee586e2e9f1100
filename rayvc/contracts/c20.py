"""C20: the handle registry (freelist).  Representation invariant of a registry: 1 <= data_size, 0 <= data_pos <= data_size, 0 <= free_pos <=
free_size; every freed handle free[j] (j<free_pos) is a handle below data_pos whose slot reads null, and no handle is freed twice
(rank(free[j]) = j for some ghost function rank, i.e. free is injective).  Stored values are never the null value (they are addresses)."""
from spec import *
import sym as S, z3
from sym import norm
from contract import Inst, LIM
from engine import Ptr, Fact, Region, Init
import engine as E
NULLV = N64
LM = 1 << 30
F = dict(data_size=0, data_pos=8, data=16, free_size=24, free_pos=32, free=40)
def heapbuf(B, name, n, vals):
    """storage obtained from the allocator (it may be reallocated by the code under test)"""
    import ctypes as C
    f = B.lib["__wrap_heap_alloc"]; f.restype = C.c_void_p; f.argtypes = [C.c_int64]
    a = f(8 * n)
    for i in range(n): B.wr(a + 8 * i, vals[i] & mask(64), 8)
    o = type("O", (), {})(); o.p = a; return o
def release(V, h):
    import ctypes as C
    f = V.B.lib["__wrap_heap_free"]; f.restype = None; f.argtypes = [C.c_void_p]
    for k in ("data", "free"): f(V.rd(h.s.p, F[k], 8))
def registry(B):
    h = type("R", (), {})()
    if B.native:
        r = B.rng; ds = B.int("data_size", 64, 1, 40); dp = B.int("data_pos", 64, 0, ds); fs = B.int("free_size", 64, 1, 40)
        if r.random() < .3: dp = ds
        if r.random() < .2: fs = max(1, min(fs, dp))
        k = r.randint(0, min(dp, fs)); freed = r.sample(range(dp), k)
        if r.random() < .2 and k < fs <= dp: freed = r.sample(range(dp), fs); k = fs
        B.log += [("data_pos", dp), ("free", list(freed))]
        dv = [NULLV if i in freed else r.getrandbits(62) + 1 for i in range(ds)]; fv = freed + [r.getrandbits(20) for _ in range(fs - k)]
        h.data = heapbuf(B, "data", ds, dv); h.free = heapbuf(B, "free", fs, fv)
        h.at = lambda i: dv[i & mask(64)]; h.fat = lambda i: fv[i & mask(64)]; h.ds, h.dp, h.fs, h.fp = ds, dp, fs, k
        h.live = lambda i: i not in freed
    else:
        h.ds = B.int("data_size", 64, 1, LM); h.dp = B.int("data_pos", 64, 0, h.ds); h.fs = B.int("free_size", 64, 1, LM); h.fp = B.int("free_pos", 64, 0, h.fs)
        h.data = B.buf("data", h.ds, 8, writable=True); h.free = B.buf("free", h.fs, 8, writable=True)
        h.rank = z3.Function("rank", z3.BitVecSort(64), z3.BitVecSort(64))
        u = z3.BitVec("u_fl", 64); f = h.free.arr(u)
        B.st.facts.append(Fact(u, 0, h.fp, And(S.icmp("sge", f, 0, 64), S.icmp("slt", f, h.dp, 64), eq(h.data.arr(f), NULLV, 64), eq(h.rank(f), u, 64))))
        h.at, h.fat = h.data.arr, h.free.arr
    h.s = B.struct("registry", 48, {0: (8, h.ds), 8: (8, h.dp), 16: (8, h.data.p), 24: (8, h.fs), 32: (8, h.fp), 40: (8, h.free.p)})
    return h
def fields(V, h):
    g = lambda n: V.rd(h.s.p, F[n], 8)
    return {k: g(k) for k in F}
def wf(V, h):
    """the representation invariant holds again"""
    f = fields(V, h)
    V.check("inv:data", And(S.icmp("sge", f["data_pos"], 0, 64), sle(f["data_pos"], f["data_size"], 64)))
    V.check("inv:free", And(S.icmp("sge", f["free_pos"], 0, 64), sle(f["free_pos"], f["free_size"], 64)))
    def g(j):
        p = V.bel(f["free"], j, 8)
        V.check("inv:freed handles are below data_pos", And(S.icmp("sge", p, 0, 64), slt(p, f["data_pos"], 64)))
        V.use(p)
        V.check("inv:freed slots read null", eq(V.bel(f["data"], p, 8), NULLV, 64))
        def g2(i):
            V.case(slt(i, j, 64), lambda: V.check("inv:no handle is freed twice", S.icmp("ne", V.bel(f["free"], i, 8), p, 64)))
        V.forall("other", 0, f["free_pos"], g2)
    V.forall("freed", 0, f["free_pos"], g)
    if V.native: release(V, h)
def keep(V, h, pos=None):
    """every handle but pos keeps its value"""
    f = fields(V, h)
    def g(i):
        ok = True if pos is None else S.icmp("ne", i, pos, 64)
        V.case(ok, lambda: V.check("other handles keep their values", eq(V.bel(f["data"], i, 8), h.at(i), 64)))
    V.forall("kept", 0, h.dp, g)
def c_realloc(e, st, a, ins):
    """heap_realloc(p, n): a block of n bytes whose first min(old, n) bytes are those of p; p is no longer used"""
    p, n = a
    e.check(st, And(isinstance(p, Ptr) and p.r is not None and eq(p.o, 0, 64), S.icmp("sgt", n, 0, 64), S.icmp("slt", n, 1 << 40, 64)), "heap_realloc:block and size")
    e.nfresh += 1; tag = "re%d" % e.nfresh; old = p.r.size
    def lazy(eng, s2, off, k):
        return z3.Function("heap_%s_%d" % (tag, k), z3.BitVecSort(64), z3.BitVecSort(8 * k))(S.bv(off, 64))
    r = Region("realloc." + tag, n, Init(lazy=lazy), "buf")
    ln = If(S.icmp("slt", old, n, 64), old, n, 64)
    st.mem[r.id] = (E.C(0, ln, p.r, st.mem.get(p.r.id), 0), None)
    st.ghost["gone"] = st.ghost.get("gone", ()) + (p,)
    return [(st, Ptr(r, 0))]
CT = {"heap_realloc": c_realloc}
def push():
    def setup(B):
        h = registry(B); v = B.int("val", 64); B.assume(S.icmp("ne", v, NULLV, 64)) ; B.h = (h, v); return [h.s, v]
    def post(V, r):
        h, v = V.B.h; f = fields(V, h)
        V.use(r)
        V.check("handle in range", And(S.icmp("sge", r, 0, 64), slt(r, f["data_pos"], 64)))
        V.check("value is stored", eq(V.bel(f["data"], r, 8), v, 64))
        V.case(slt(r, h.dp, 64), lambda: V.check("a live handle is not given out again", eq(h.at(r), NULLV, 64)))
        V.case(Not(slt(r, h.dp, 64)), lambda: V.check("new handle", And(eq(r, h.dp, 64), eq(f["data_pos"], add(h.dp, 1, 64), 64))))
        V.case(S.icmp("sgt", h.fp, 0, 64), lambda: V.check("freed handle reused", And(eq(f["free_pos"], sub(h.fp, 1, 64), 64), eq(f["data_pos"], h.dp, 64))))
        keep(V, h, r); wf(V, h)
    return Inst("freelist_push", "freelist_push", setup, post, module="freelist", contracts=CT)
def pop():
    def setup(B):
        h = registry(B)
        if B.native: p = B.rng.randint(-1, h.dp + 1) & mask(64); B.log.append(("pos", sgn(p, 64)))
        else: p = B.int("pos", 64)
        B.h = (h, p); return [h.s, p]
    def post(V, r):
        h, p = V.B.h; f = fields(V, h)
        known = And(S.icmp("sge", p, 0, 64), slt(p, h.dp, 64))
        def unknown():
            V.check("unknown handle reads null", eq(r, NULLV, 64)); V.check("nothing freed", eq(f["free_pos"], h.fp, 64)); keep(V, h)
        def kn():
            V.check("value", eq(r, h.at(p), 64))
            live = S.icmp("ne", h.at(p), NULLV, 64)
            V.case(live, lambda: (V.check("freed once", And(eq(f["free_pos"], add(h.fp, 1, 64), 64), eq(V.bel(f["free"], h.fp, 8), p, 64))), V.check("slot reads null", eq(V.bel(f["data"], p, 8), NULLV, 64)))[0])
            V.case(Not(live), lambda: V.check("a removed handle is not freed again", eq(f["free_pos"], h.fp, 64)))
            keep(V, h, p)
        V.case(Not(known), unknown); V.case(known, kn)
        V.check("data_pos", eq(f["data_pos"], h.dp, 64)); wf(V, h)
    return Inst("freelist_pop", "freelist_pop", setup, post, module="freelist", contracts=CT)
def get():
    def setup(B):
        h = registry(B)
        if B.native: p = B.rng.randint(-1, h.dp + 1) & mask(64); B.log.append(("pos", sgn(p, 64)))
        else: p = B.int("pos", 64)
        B.h = (h, p); return [h.s, p]
    def post(V, r):
        h, p = V.B.h; known = And(S.icmp("sge", p, 0, 64), slt(p, h.dp, 64))
        V.case(known, lambda: V.check("value", eq(r, h.at(p), 64))); V.case(Not(known), lambda: V.check("unknown handle reads null", eq(r, NULLV, 64)))
        keep(V, h); wf(V, h)
    return Inst("freelist_get", "freelist_get", setup, post, module="freelist")
def create():
    def setup(B): n = B.int("size", 64, 1, 1000 if B.native else LM); B.h = n; return [n]
    def post(V, r):
        n = V.B.h; g = {k: V.rd(r, F[k], 8) for k in F}
        V.check("empty", And(eq(g["data_pos"], 0, 64), eq(g["free_pos"], 0, 64))); V.check("sizes", And(eq(g["data_size"], n, 64), eq(g["free_size"], n, 64)))
        if not V.native:
            for k in ("data", "free"): V.check("storage of %s" % k, isinstance(g[k], Ptr) and And(eq(g[k].o, 0, 64), sle(mul(n, 8, 64), g[k].r.size, 64)))
            V.check("separate", g["data"].r is not g["free"].r and g["data"].r is not r.r)
    return Inst("freelist_create", "freelist_create", setup, post, module="freelist")
def instances(tier="quick"): return [push(), pop(), get(), create()]
