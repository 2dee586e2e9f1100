"""C01: element-wise arithmetic kernels (math.c ray_*_partial) against the mathematical operation on the operands in the result domain."""
from spec import *
import sym as S
from contract import Inst, CODE, WIDTH, LIM
RANK = ["U8", "I16", "I32", "I64", "F64"]
def rank(a, b): return RANK[max(RANK.index(a), RANK.index(b))]
NUM = set(RANK)

def rtype(op, x, y):
    """result element type; None if unsupported.  Written from the documented promotion rules, per operation."""
    if op == "fdiv": return "F64"
    if op in ("add", "sub", "mul"):
        if {x, y} == {"B8", "I64"}: return "I64"
        if x in NUM and y in NUM: return rank(x, y)
        if op == "sub" and x == y and x in ("DATE",): return "I32"
        if op == "sub" and x == y == "TIMESTAMP": return "I64"
        if x == y == "TIME": return "TIME"
        if x in ("DATE", "TIME", "TIMESTAMP") and y in ("I32", "I64"): return x
        if y in ("DATE", "TIME", "TIMESTAMP") and x in ("I32", "I64"): return y
        return "TIMESTAMP"
    if op == "div":
        # quotient has the type of the dividend; a small dividend is promoted to the divisor's type
        if x in ("U8", "I16") : return rank(x, y)
        if y in ("U8", "I16"): return rank(x, y)
        return x
    if op == "mod":
        if x == "TIME": return "TIME"
        if "F64" in (x, y): return "F64"
        if x in ("U8", "I16") or y in ("U8", "I16"): return rank(x, y)
        return y
    if op == "xbar":
        if x in ("DATE", "TIME", "TIMESTAMP"): return x
        return rank(x, y)

def domain(op, x, y, r):
    """type in which the operation is carried out"""
    if op in ("div", "mod") and x in NUM and y in NUM: return rank(x, y)
    if op in ("div", "mod") and x == "TIME": return "F64" if y == "F64" else ("I64" if y == "I64" else "TIME")
    if op == "fdiv": return "F64"
    if op == "sub" and x == y == "DATE": return "I32"
    if op == "xbar" and r in ("I32", "DATE", "TIME") and y == "I64": return "I64"
    return r

def apply(op, a, b, D, R, V):
    """-> (predicate on result v, for float: tolerant equality)"""
    w = W[D]; nul = Or(isnull(a, D), isnull(b, D))
    zero = S.fcmp("oeq", b, 0) if D == "F64" else eq(b, 0, w)
    if op in ("div", "fdiv", "mod", "xbar") : nul = Or(nul, zero)
    if D == "F64":
        q = S.fbin("fdiv", a, b)
        if op == "add": r = S.fbin("fadd", a, b)
        elif op == "sub": r = S.fbin("fsub", a, b)
        elif op == "mul": r = S.fbin("fmul", a, b)
        elif op == "fdiv": r = q
        elif op == "div": r = S.funary("floor", q)
        elif op == "mod": r = S.fbin("fsub", a, S.fbin("fmul", S.funary("floor", q), b))
        elif op == "xbar": r = S.fbin("fmul", S.funary("floor", q), b)
    else:
        if op == "add": r = add(a, b, w)
        elif op == "sub": r = sub(a, b, w)
        elif op == "mul": r = mul(a, b, w)
        elif op == "div":
            r = floordiv(a, b, w) if D != "U8" else S.binop("udiv", a, b, 8)
        elif op == "mod":
            r = floormod(a, b, w) if D != "U8" else S.binop("urem", a, b, 8)
        elif op == "xbar": r = sub(a, floormod(a, b, w), w)
        if op in ("div", "mod") and D == "U8": return If(zero, 0, r, 8)
    return If(nul, null(D), r, w)

FORMS = ["av", "va", "vv", "aa"]
SUPPORTED = {}
def load_table():
    import json, os
    p = os.path.join(os.path.dirname(__file__), "c01_table.json")
    return json.load(open(p))

def free(op, b, D):
    """inputs for which the operation is not specified: bars of negative width"""
    if op != "xbar" : return False
    return S.fcmp("olt", b, 0) if D == "F64" else lt0(b, W[D])
def req(V, v, e, t):
    """result v of type t is e"""
    if t == "F64":
        return If(isnan(e), isnan(v), V.feq(v, e), 1)
    return eq(v, e, W[t])

def kernel(op, fx, tx, fy, ty, alias=None):
    R = rtype(op, tx, ty); D = domain(op, tx, ty, R)
    atoms = fx == "a" and fy == "a"
    name = "ray_%s_partial(%s%s,%s%s)" % (op, "-" if fx == "a" else "", tx, "-" if fy == "a" else "", ty) + (" in place of %s" % alias if alias else "")
    def setup(B):
        if atoms:
            x, y = B.atom("x", tx), B.atom("y", ty)
            B.h = dict(x=x, y=y); pre(B, op, D, x.v, y.v)
            return [x, y, 0, 0, B.null()]
        N = B.int("N", 64, 0, LIM); off = B.int("off", 64, 0, N); ln = B.int("len", 64, 0, N)
        B.assume(S.icmp("sle", S.binop("add", off, ln, 64), N, 64))
        x = B.atom("x", tx) if fx == "a" else B.vec("x", tx, N, writable=alias == "x")
        y = B.atom("y", ty) if fy == "a" else B.vec("y", ty, N, writable=alias == "y")
        out = x if alias == "x" else y if alias == "y" else B.vec("out", R, N, writable=True)
        B.h = dict(x=x, y=y, out=out, N=N, off=off, ln=ln)
        return [x, y, ln, off, out]
    def pre(B, op, D, a, b): pass
    def elt(h, k): return h.v if h.n is None else h.at(k)
    def val(V, xv, yv):
        a, b = conv(xv, tx, D), conv(yv, ty, D)
        if op == "div" and tx == "TIME": pass
        r = apply(op, a, b, D, R, V)
        return conv(r, D, R), free(op, b, D)
    def post(V, ret):
        h = V.B.h
        if atoms:
            V.check("type", eq(V.typ(ret), (-CODE[R]) & 0xff, 8))
            e, fr = val(V, h["x"].v, h["y"].v)
            V.check("value", Or(fr, req(V, V.av(ret, WIDTH[R]), e, R)))
            return
        V.check("ok", V.isnullobj(ret))
        w = WIDTH[R]; o = h["out"]; end = S.binop("add", h["off"], h["ln"], 64)
        def elem(k):
            e, fr = val(V, elt(h["x"], k), elt(h["y"], k))
            V.check("elem", Or(fr, req(V, V.el(o.p, k, w), e, R)))
        V.forall("elem", h["off"], end, elem)
        V.forall("below", 0, h["off"], lambda k: V.check("frame", eq(V.el(o.p, k, w), o.at(k), 8 * w)))
        V.forall("above", end, h["N"], lambda k: V.check("frame", eq(V.el(o.p, k, w), o.at(k), 8 * w)))
    return Inst(name, "ray_%s_partial" % op, setup, post, module="math")

def infer(op, tx, ty, la, lb):
    """the type binop_map gives the result vector is the one the kernel writes"""
    fn = "infer_%s_type" % {"add": "math", "sub": "math", "mul": "math"}.get(op, op)
    def setup(B): return [B.atom("x", tx) if la == "a" else B.vec("x", tx, B.int("N", 64, 0, LIM)), B.atom("y", ty) if lb == "a" else B.vec("y", ty, B.int("M", 64, 0, LIM))]
    return Inst("%s(%s:%s,%s)" % (fn, op, la + tx, lb + ty), fn, setup, lambda V, r: V.check("type", eq(r, CODE[rtype(op, tx, ty)], 8)), module="math")

def instances(tier="quick"):
    out = []
    for op, prs in load_table().items():
        for p in prs:
            a, b = p.split(",")
            if (a[0], b[0]) == ("a", "a"): continue
            if op != "fdiv": out.append(infer(op, a[1:], b[1:], a[0], b[0]))
            R = rtype(op, a[1:], b[1:])
            if a[0] == "v" and a[1:] == R and (op, R) not in (("add", "U8"), ("sub", "U8"), ("mul", "U8")) and (b[0] == "v" or tier != "quick"): out.append(kernel(op, a[0], a[1:], b[0], b[1:], "x"))
            elif b[0] == "v" and b[1:] == R and tier != "quick": out.append(kernel(op, a[0], a[1:], b[0], b[1:], "y"))
    for op, prs in load_table().items():
        for p in prs:
            a, b = p.split(","); out.append(kernel(op, a[0], a[1:], b[0], b[1:]))
    return out
