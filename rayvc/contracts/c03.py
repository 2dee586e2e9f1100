"""C03: fold kernels (count, sum, min, max, squared deviations) over a sub-range of a vector; aggregates of atoms."""
from spec import *
import sym as S
from contract import Inst, CODE, WIDTH, LIM
NT = ["U8", "I16", "I32", "I64", "F64", "DATE", "TIME", "TIMESTAMP"]
def fop(op, a, b): return S.fbin(op, a, b)
def lt(a, b, t):
    if t == "F64": return S.fcmp("olt", a, b)
    return ult(a, b, 8) if t == "U8" else slt(a, b, W[t])
def gt(a, b, t): return S.fcmp("ogt", a, b) if t == "F64" else lt(b, a, t)
def best(op, t):
    """smaller (larger) of two values where a null is no value at all"""
    def f(a, e):
        return If(isnull(a, t), e, If(isnull(e, t), a, If(lt(a, e, t) if op == "min" else gt(a, e, t), a, e, W[t]), W[t]), W[t])
    return f
def kernel(op, t):
    R = dict(cnt="I64", sum={"U8": "I64", "I16": "I64"}.get(t, t), sq_sub="F64").get(op, t)
    acc = {"DATE": "I32", "TIME": "I32", "TIMESTAMP": "I64"}.get(R, R); w = W[R]
    name = "ray_%s_partial(%s)" % (op, t)
    def setup(B):
        N = B.int("N", 64, 0, LIM); off = B.int("off", 64, 0, N); ln = B.int("len", 64, 0, N)
        B.assume(S.icmp("sle", S.binop("add", off, ln, 64), N, 64))
        x = B.vec("x", t, N); y = B.atom("y", "F64") if op == "sq_sub" else None
        B.h = dict(x=x, N=N, off=off, ln=ln, y=y)
        return [x] + ([y] if y else []) + [ln, off]
    def post(V, r):
        h = V.B.h; x, off, ln = h["x"], h["off"], h["ln"]
        el = lambda u: x.at(S.norm(S.binop("add", off, u, 64)) if not V.native else (off + u))
        V.check("type", eq(V.typ(r), (-CODE[R]) & 0xff, 8))
        v = V.av(r, WIDTH[R])
        if op == "cnt" and t == "U8": V.check("value", eq(v, ln, 64)); return
        if op in ("min", "max") and t == "U8":
            # bytes have no null: the fold starts at the first element; an empty range gives 0
            emp = eq(ln, 0, 64)
            if V.native:
                if not emp: V.fold("value", v, 8, el(0), lambda a, u: best(op, t)(a, el(u + 1)), ln - 1)
                else: V.check("empty", v == 0)
                return
            if V.e.implied(V.st, emp): V.check("empty", eq(v, 0, 8)); return
            if not V.e.implied(V.st, S.icmp("sgt", ln, 0, 64)):
                import engine
                raise engine.Fork(emp)
            V.fold("value", v, 8, el(0), lambda a, u: best(op, t)(a, el(S.binop("add", u, 1, 64))), S.binop("sub", ln, 1, 64)); return
        if op == "cnt": step = lambda a, u: If(isnull(el(u), t), a, add(a, 1, 64), 64)
        elif op == "sum":
            if t == "F64": step = lambda a, u: If(isnan(el(u)), a, S.fbin("fadd", a, el(u)), 64)
            else: step = lambda a, u: If(isnull(el(u), t), a, add(a, widen(el(u), t, w), w), w)
        elif op == "sq_sub":
            def step(a, u):
                d = S.fbin("fsub", el(u) if t == "F64" else S.itof(el(u), W[t], t != "U8"), h["y"].v)
                return If(isnull(el(u), t), a, S.fbin("fadd", a, S.fbin("fmul", d, d)), 64)
        else: step = lambda a, u: best(op, t)(a, el(u))
        V.fold("value", v, w, null(t) if op in ("min", "max") else 0, step, ln, fl=acc == "F64")
    return Inst(name, "ray_%s_partial" % op, setup, post, module="math")
def atom(op, t):
    R = "I64" if op == "cnt" or (op == "sum" and t in ("U8", "I16")) else t
    def setup(B): x = B.atom("x", t); B.h = x; return [x, 1, 0]
    def post(V, r):
        x = V.B.h; V.check("type", eq(V.typ(r), (-CODE[R]) & 0xff, 8)); v = V.av(r, WIDTH[R])
        e = If(isnull(x.v, t), 0, 1, 64) if op == "cnt" else conv(x.v, t, R)
        V.check("value", eq(v, e, W[R]))
    return Inst("ray_%s_partial(-%s)" % (op, t), "ray_%s_partial" % op, setup, post, module="math")
def instances(tier="quick"):
    out = []
    for op in ("cnt", "sum", "min", "max", "sq_sub"):
        for t in NT:
            if op == "sum" and t in ("DATE", "TIMESTAMP"): continue
            out.append(kernel(op, t))
            if op != "sq_sub": out.append(atom(op, t))
    return out
