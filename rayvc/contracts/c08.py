"""C08: turning a boolean mask into row numbers (ops_where), and filtering a vector by a mask (ray_filter).
rank(k) = number of set positions below k; every set position k appears at rank(k), and the result has rank(n) elements."""
from spec import *
import sym as S
from contract import Inst, CODE, WIDTH, LIM
from engine import Ptr
def rank(V, mask, n):
    return V.recur("rank", 64, 0, lambda a, u: add(a, If(S.icmp("ne", mask(u), 0, 8), 1, 0, 64), 64), n)
def where(fn):
    def setup(B):
        N = B.int("N", 64, 0, LIM); m = B.vec("mask", "B8", N); B.h = (m, N)
        return [m] if fn == "ray_where" else [m.p + 16 if B.native else m.p.add(16), N]
    def post(V, r):
        m, N = V.B.h
        V.check("type", eq(V.typ(r), CODE["I64"], 8))
        if V.native or V.e.feasible(V.st, S.icmp("sgt", N, 0, 64)):
            R = rank(V, m.at, N)
            V.check("length", eq(V.len(r), R(N), 64))
            def f(k):
                if V.native and not m.at(k): return
                if not V.native:
                    V.st.assume(S.icmp("ne", m.at(k), 0, 8)); V.use(S.norm(add(k, 1, 64)))
                    if not V.e.feasible(V.st): return
                V.check("at its rank", eq(V.el(r, R(k), 8), k, 64))
            V.forall("set", 0, N, f)
    return Inst(fn, fn, setup, post, module="ops" if fn == "ops_where" else "items")
def c_resize(e, st, a, ins):
    """resize_obj(&v, n), 0 <= n <= len: the vector v points to (or a moved copy of it) with length n, elements kept"""
    v = e.read(st, a[0].r, a[0].o, 8)
    ok = isinstance(v, Ptr) and v.r is not None and v.r.kind == "heap"
    e.check(st, ok, "resize_obj:own vector")
    n0 = e.read(st, v.r, S.norm(S.binop("add", v.o, 8, 64)), 8)
    e.check(st, And(S.icmp("sle", 0, a[1], 64), S.icmp("sle", a[1], n0, 64)), "resize_obj:shrinks")
    e.write(st, v.r, S.norm(S.binop("add", v.o, 8, 64)), 8, a[1])
    return [(st, v)]
def filt(tp, lens=True):
    w = WIDTH[tp]
    def setup(B):
        N = B.int("N", 64, 0, LIM if w <= 8 else LIM // 2); m = B.vec("mask", "B8", N)
        M = N if lens else B.int("M", 64, 0, LIM)
        if not lens: B.assume(S.icmp("ne", N, M, 64))
        x = B.vec("x", tp, M, **(dict(at=lambda i: B.nullobj()) if B.native and tp == "LIST" else {})); B.h = (m, x, N); return [x, m]
    def post(V, r):
        m, x, N = V.B.h
        if not lens: V.check("length error", V.iserr(r)); return
        V.check("type", eq(V.typ(r), CODE[tp], 8))
        R = rank(V, m.at, N)
        V.check("length", eq(V.len(r), R(N), 64))
        def f(k):
            if V.native and not m.at(k): return
            if not V.native:
                V.st.assume(S.icmp("ne", m.at(k), 0, 8)); V.use(S.norm(add(k, 1, 64)))
                if not V.e.feasible(V.st): return
            V.check("at its rank", eq(V.el(r, R(k), w), x.at(k), 8 * w))
        V.forall("set", 0, N, f)
    return Inst("ray_filter(%s%s)" % (tp, "" if lens else ", other length"), "ray_filter", setup, post, module="items", contracts={"resize_obj": c_resize})
def instances(tier="quick"):
    out = [where("ops_where"), where("ray_where")]
    for t in ("B8", "U8", "C8", "I16", "I32", "DATE", "TIME", "I64", "SYMBOL", "TIMESTAMP", "F64", "GUID", "LIST"): out.append(filt(t))
    return out + [filt("I64", False)]
