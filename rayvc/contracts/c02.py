"""C02: comparison kernels (cmp.c ray_{EQ,NE,LT,GT,LE,GE}_partial) against one total order per type in which null is the smallest value."""
from spec import *
import sym as S
from contract import Inst, CODE, WIDTH, LIM
RANK = ["I16", "I32", "I64", "F64"]
OPS = ["EQ", "NE", "LT", "GT", "LE", "GE"]

def dom(x, y):
    if x in RANK and y in RANK: return RANK[max(RANK.index(x), RANK.index(y))]
    if {x, y} == {"B8", "U8"}: return "U8"
    if {x, y} == {"DATE", "TIMESTAMP"}: return "TIMESTAMP"
    return x
def cmp(op, a, b, D):
    """a op b in the total order of type D: null (the smallest integer, NaN) comes first"""
    if D == "F64":
        na, nb = isnan(a), isnan(b)
        e = If(Or(na, nb), And(na, nb), S.fcmp("oeq", a, b), 1)
        l = If(na, Not(nb), And(Not(nb), S.fcmp("olt", a, b)), 1)
    elif D == "GUID": e, l = a[0], a[1]
    else:
        w = W[D]; u = D in ("B8", "U8")
        e = eq(a, b, w); l = ult(a, b, w) if u else slt(a, b, w)
    g = And(Not(e), Not(l))
    return {"EQ": e, "NE": Not(e), "LT": l, "GT": g, "LE": Or(l, e), "GE": Or(g, e)}[op]
def guid_el(V_el, k):
    return [V_el(k, i) for i in range(16)]
def guid_cmp(A, B):
    """(equal, less) in the byte-wise order"""
    e, l = True, False
    for x, y in reversed(list(zip(A, B))):
        l = Or(ult(x, y, 8), And(eq(x, y, 8), l)); e = And(eq(x, y, 8), e)
    return e, l

def kernel(op, fx, tx, fy, ty):
    D = dom(tx, ty); atoms = fx == "a" and fy == "a"
    nm = "ray_%s_partial(%s%s,%s%s)" % (op, "-" if fx == "a" else "", tx, "-" if fy == "a" else "", ty)
    def ob(B, n, f, t, N):
        if t == "GUID":
            return B.vec(n, "GUID", 1 if f == "a" else N, code=(-CODE["GUID"]) if f == "a" else None)
        return B.atom(n, t) if f == "a" else B.vec(n, t, N)
    def setup(B):
        if atoms:
            x, y = ob(B, "x", fx, tx, 1), ob(B, "y", fy, ty, 1); B.h = dict(x=x, y=y)
            return [x, y, 1, 0, B.nullobj()]
        N = B.int("N", 64, 0, LIM); off = B.int("off", 64, 0, N); ln = B.int("len", 64, 0, N)
        B.assume(S.icmp("sle", S.binop("add", off, ln, 64), N, 64))
        x, y = ob(B, "x", fx, tx, N), ob(B, "y", fy, ty, N)
        out = B.vec("out", "B8", N, writable=True)
        B.h = dict(x=x, y=y, out=out, N=N, off=off, ln=ln)
        return [x, y, ln, off, out]
    def val(V, h, f, t, k):
        if t == "GUID":
            i = 0 if f == "a" else k
            v = h.at(i)
            return [S.extract_bytes(v, 16, j, 1) for j in range(16)]
        return conv(h.v if f == "a" else h.at(k), t, D)
    def expect(V, k):
        h = V.B.h; a, b = val(V, h["x"], fx, tx, k), val(V, h["y"], fy, ty, k)
        if D == "GUID": a, b = guid_cmp(a, b), None
        return cmp(op, a, b, D)
    def post(V, ret):
        h = V.B.h
        if atoms:
            V.check("type", eq(V.typ(ret), (-CODE["B8"]) & 0xff, 8))
            V.check("value", eq(V.av(ret, 1), If(expect(V, 0), 1, 0, 8), 8)); return
        V.check("ok", Or(V.isnullobj(ret), V.is_ptr(ret, h["out"])))
        o = h["out"]; end = S.binop("add", h["off"], h["ln"], 64)
        V.forall("elem", h["off"], end, lambda k: V.check("elem", eq(V.el(o.p, k, 1), If(expect(V, k), 1, 0, 8), 8)))
        V.forall("below", 0, h["off"], lambda k: V.check("frame", eq(V.el(o.p, k, 1), o.at(k), 8)))
        V.forall("above", end, h["N"], lambda k: V.check("frame", eq(V.el(o.p, k, 1), o.at(k), 8)))
    return Inst(nm, "ray_%s_partial" % op, setup, post, module="cmp")

def string_kernel(op, fx, fy):
    nm = "ray_%s_partial(%sC8,%sC8)" % (op, "-" if fx == "a" else "", "-" if fy == "a" else "")
    def setup(B):
        x = B.atom("x", "C8") if fx == "a" else B.vec("x", "C8", B.int("nx", 64, 0, LIM))
        y = B.atom("y", "C8") if fy == "a" else B.vec("y", "C8", B.int("ny", 64, 0, LIM))
        B.h = dict(x=x, y=y)
        return [x, y, 1, 0, B.nullobj()]
    def post(V, ret):
        h = V.B.h
        V.check("type", eq(V.typ(ret), (-CODE["B8"]) & 0xff, 8))
        n = [(1 if q.n is None else q.n) for q in (h["x"], h["y"])]
        c = V.lexcmp([h["x"], h["y"]], [8 if q.n is None else 16 for q in (h["x"], h["y"])], n)
        if c is None: V.check("compares the two strings", False); return
        w = V.lexw
        V.check("value", eq(V.av(ret, 1), If(S.icmp({"EQ": "eq", "NE": "ne", "LT": "slt", "GT": "sgt", "LE": "sle", "GE": "sge"}[op], c, 0, w), 1, 0, 8), 8))
    return Inst(nm, "ray_%s_partial" % op, setup, post, module="cmp", contracts={"str_cmp": c_str_cmp})

def c_str_cmp(e, st, a, ins):
    """str_cmp(p,m,q,n): requires both ranges readable; ensures the sign of the result is that of the lexicographic order (proved separately)"""
    import builtins_ir as Bi
    e.check(st, And(S.icmp("sge", a[1], 0, 64), S.icmp("sge", a[3], 0, 64)), "str_cmp:len")
    Bi.rng(e, st, a[0], a[1], "str_cmp"); Bi.rng(e, st, a[2], a[3], "str_cmp")
    r = e.fresh("strcmp", 64)
    st.ghost["strcmp"] = st.ghost.get("strcmp", ()) + ((tuple(a), r),)
    return [(st, r)]

def strcmp_inst():
    def setup(B):
        m = B.int("m", 64, 0, LIM); n = B.int("n", 64, 0, LIM)
        x = B.buf("x", m); y = B.buf("y", n); B.h = dict(x=x, y=y, m=m, n=n)
        return [x, m, y, n]
    def post(V, r):
        h = V.B.h; x, y, m, n = h["x"], h["y"], h["m"], h["n"]
        mn = If(slt(m, n, 64), m, n, 64)
        if V.native:
            a, b = bytes(x.at(i) for i in range(m)), bytes(y.at(i) for i in range(n)); s = sgn(r, 64)
            V.check("order", (s > 0) - (s < 0) == (a > b) - (a < b)); return
        # first difference reported by memcmp (ghost): bytes before it agree, so the result must have the sign of the first difference
        d = V.st.ghost.get("memcmp")
        if d is None: V.check("order", False); return
        d = d[-1]
        V.check("range", And(S.icmp("sle", 0, d, 64), S.icmp("sle", d, mn, 64)))
        V.forall("prefix", 0, d, lambda k: V.check("prefix equal", eq(x.at(k), y.at(k), 8)))
        lt = If(slt(d, mn, 64), ult(x.at(d), y.at(d), 8), slt(m, n, 64), 1)
        e = If(slt(d, mn, 64), False, eq(m, n, 64), 1)
        V.check("less", Not(xor(slt(r, 0, 64), lt))); V.check("equal", Not(xor(eq(r, 0, 64), e)))
        V.check("diff", Or(Not(slt(d, mn, 64)), S.icmp("ne", x.at(d), y.at(d), 8)))
    return Inst("str_cmp", "str_cmp", setup, post, module="string")

def c_ray_key(e, st, a, ins):
    """ray_key(enum): a fresh symbol atom naming the domain"""
    from engine import Region, Init, Ptr
    return [(st, Ptr(Region("enumkey", 16, Init({0: (1, 0xff), 1: (1, 0), 2: (1, (-CODE["SYMBOL"]) & 0xff), 3: (1, 0), 4: (4, 1), 8: (8, z3.BitVec("key", 64))}), "obj"), 0))]
import z3
def enum_kernel(op, form, intern):
    """form: which side is the enum and what the other one is; the enum's positions index its domain"""
    left, oth = form
    nm = "ray_%s_partial(%s)" % (op, ("ENUM%s," % ("" if intern else "'") + oth) if left else (oth + ",ENUM%s" % ("" if intern else "'")))
    hold = {}
    def setup(B):
        N = B.int("N", 64, 0, LIM); off = B.int("off", 64, 0, N); ln = B.int("len", 64, 0, N); D = B.int("D", 64, 0, LIM)
        B.assume(S.icmp("sle", S.binop("add", off, ln, 64), N, 64))
        from engine import Fact
        if intern:
            val = B.vec("val", "I64", N)
            en = B.struct("enum", 32, {0: (1, 0xff), 2: (1, CODE["ENUM"]), 3: (1, 0), 8: (8, 2), 24: (8, val.p)}, writable=False)
        else:
            val = en = B.vec("val", "ENUM", N, mmod=0xfd)
        u = z3.BitVec("u_val", 64)
        B.st.facts.append(Fact(u, 0, N, And(S.icmp("sge", val.arr(u), 0, 64), S.icmp("slt", val.arr(u), D, 64))))
        dom = B.vec("dom", "SYMBOL", D); hold["dom"] = dom
        y = B.atom("y", "SYMBOL") if oth[0] == "-" else B.vec("y", "SYMBOL", N)
        out = B.vec("out", "B8", N, writable=True)
        B.h = dict(out=out, N=N, off=off, ln=ln, val=val, dom=dom, y=y)
        return [en, y, ln, off, out] if left else [y, en, ln, off, out]
    def post(V, ret):
        h = V.B.h; o = h["out"]; end = S.binop("add", h["off"], h["ln"], 64)
        V.check("ok", V.isnullobj(ret))
        def elem(k):
            V.use(k)
            a = h["dom"].at(h["val"].at(k)); b = h["y"].v if h["y"].n is None else h["y"].at(k)
            V.check("elem", eq(V.el(o.p, k, 1), If(cmp(op, a, b, "SYMBOL") if left else cmp(op, b, a, "SYMBOL"), 1, 0, 8), 8))
        V.forall("elem", h["off"], end, elem)
        V.forall("below", 0, h["off"], lambda k: V.check("frame", eq(V.el(o.p, k, 1), o.at(k), 8)))
        V.forall("above", end, h["N"], lambda k: V.check("frame", eq(V.el(o.p, k, 1), o.at(k), 8)))
    def c_ray_get(e, st, a, ins):
        """ray_get(key): the symbol vector the enum was made from (every position of the enum is below its length)"""
        return [(st, hold["dom"].p)]
    return Inst(nm, "ray_%s_partial" % op, setup, post, module="cmp", contracts={"ray_key": c_ray_key, "ray_get": c_ray_get}, native=False)

PAIRS = [("B8", "B8"), ("U8", "U8"), ("B8", "U8"), ("U8", "B8"), ("C8", "C8")]
def instances(tier="quick"):
    out = [strcmp_inst()]
    for op in OPS:
        for left in (True, False):
            for oth in ("-SYMBOL", "SYMBOL"):
                for intern in (True, False): out.append(enum_kernel(op, (left, oth), intern))
        for x, y in PAIRS: out.append(kernel(op, "a", x, "a", y))
        for f in ("av", "va", "vv"): out.append(string_kernel(op, f[0], f[1]))
        prs = [(a, b) for a in RANK for b in RANK] + [(t, t) for t in ("DATE", "TIME", "TIMESTAMP", "SYMBOL", "GUID")] + [("DATE", "TIMESTAMP"), ("TIMESTAMP", "DATE")]
        for x, y in prs:
            for f in ("aa", "av", "va", "vv"): out.append(kernel(op, f[0], x, f[1], y))
    return out
