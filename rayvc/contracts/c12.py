"""C12: cmp_obj is one total preorder per type. Atoms: the sign of the result is that of the order of the values (null lowest; symbols by
text). Vectors, strings and lists: lexicographic, the shorter first on a tie. p is the first position (ghost) where the elements differ."""
from spec import *
import sym as S, z3
from sym import norm
from contract import Inst, CODE, WIDTH, LIM
from engine import Ptr, Fact
from contracts.c02 import cmp, guid_cmp
rank = z3.Function("symrank", z3.BitVecSort(64), z3.BitVecSort(64))
orank = z3.Function("objrank", z3.BitVecSort(64), z3.BitVecSort(64))
NS = N64
TEXT = [b"", b"a", b"ab", b"b", b"aa", b"\x80", b"abc", b"zz9", b"aB"]
def c_strsym(e, st, a, ins):
    """str_from_symbol(id): the text of the symbol (opaque)"""
    return [(st, Ptr(None, a[0]))]
def c_strcmp(e, st, a, ins):
    """strcmp(s,t) of two symbol texts: the sign of their order (libc; texts without embedded zero bytes); the null symbol's text is empty"""
    return [(st, signed(32, rank(S.bv(a[0].o, 64)), rank(S.bv(a[1].o, 64))))]
mag = {w: z3.Function("mag%d" % w, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(w)) for w in (32, 64)}
def signed(w, p, q):
    """any w-bit number with the sign of the order of p and q"""
    v = mag[w](p, q)
    return If(eq(p, q, 64), 0, If(slt(p, q, 64), S.binop("or", v, 1 << (w - 1), w), S.binop("or", S.binop("and", v, mask(w - 1), w), 1, w), w), w)
def c_rec(e, st, a, ins):
    """cmp_obj(x,y) of two elements (induction on the depth of the value): the sign of a total preorder"""
    return [(st, signed(64, orank(S.bv(a[0].o, 64)), orank(S.bv(a[1].o, 64))))]
def order(V, a, b, tp):
    """(less, equal) of two element values"""
    if tp == "SYMBOL":
        if V.native:
            x, y = V.B.text[a], V.B.text[b]; return x < y, x == y
        a, b = rank(S.bv(a, 64)), rank(S.bv(b, 64)); return slt(a, b, 64), eq(a, b, 64)
    if tp == "GUID":
        if not isinstance(a, list): a, b = ([S.extract_bytes(v, 16, j, 1) for j in range(16)] for v in (a, b))
        e, l = guid_cmp(a, b); return l, e
    if tp == "C8": tp = "U8"
    return cmp("LT", a, b, tp), cmp("EQ", a, b, tp)
def sign(V, r, l, e):
    V.check("zero iff equal", Not(xor(eq(r, 0, 64), e))); V.check("negative iff less", Not(xor(slt(r, 0, 64), l)))
def symids(B):
    B.text = {NS: b""}; ids = [NS]
    for t in TEXT[1:]:
        i = B.lib.symbols_intern(t, len(t)) & mask(64); B.text[i] = t; ids.append(i)
    return ids
CON = {"str_from_symbol": c_strsym, "strcmp": c_strcmp}
def atom(tp):
    def setup(B):
        kw = [{}, {}]
        if tp == "SYMBOL" and B.native:
            ids = symids(B); kw = [dict(val=B.choice(n, ids)) for n in "ab"]
        if tp == "GUID": x, y = [B.vec(n, "GUID", 1, code=-CODE["GUID"]) for n in "xy"]
        else: x, y = B.atom("x", tp, **kw[0]), B.atom("y", tp, **kw[1])
        B.h = (x, y); return [x, y]
    def post(V, r):
        x, y = V.B.h
        a, b = (x.at(0), y.at(0)) if tp == "GUID" else (x.v, y.v)
        if tp == "SYMBOL" and not V.native: V.st.assume(And(S.icmp("sle", rank(z3.BitVecVal(NS, 64)), rank(a), 64), S.icmp("sle", rank(z3.BitVecVal(NS, 64)), rank(b), 64)))
        sign(V, r, *order(V, a, b, tp))
        if tp == "SYMBOL" and not V.native:
            V.check("null lowest", Or(S.icmp("ne", a, NS, 64), Not(S.icmp("sgt", r, 0, 64))))
    return Inst("cmp_obj(-%s)" % tp, "cmp_obj", setup, post, module="rayforce", contracts=dict(CON), nat=dict(runtime=True) if tp == "SYMBOL" else None)
def same_el(a, b0, tp, w):
    """an arbitrary element equal to a in the order"""
    if tp != "F64": return a
    z = eq(S.binop("and", a, mask(63), 64), 0, 64)
    n = isnan(a)
    return If(z, If(slt(b0, 0, 64), NS, 0, 64), If(And(n, isnan(b0)), b0, a, 64), 64)
def el(h, k): return h.el(k) if hasattr(h, "el") else h.at(k)
def vec(tp):
    w = WIDTH[tp]
    def setup(B):
        lim = LIM if w <= 8 else LIM // 2
        m = B.int("m", 64, 0, lim); n = B.int("n", 64, 0, lim); mn = If(slt(m, n, 64), m, n, 64)
        p = B.int("p", 64, 0, mn); kw = {}
        if tp in ("SYMBOL",) and B.native:
            ids = symids(B); kw = dict(at=lambda i: B.rng.choice(ids))
        if tp == "LIST":
            x, y = B.vec("x", tp, m), B.vec("y", tp, n)
        elif tp == "GUID":        # as bytes
            m16, n16, p16 = (mul(v, 16, 64) for v in (m, n, p))
            x = B.vec("x", tp, m, w=1, cap=m16); y0 = B.vec("y0", tp, n, w=1, cap=n16)
            y = B.vec("y", tp, n, w=1, cap=n16, at=lambda u: (x if u < p16 else y0).at(u) if B.native else If(slt(u, p16, 64), x.at(u), y0.at(u), 8))
            at = lambda h: lambda i: [h.at(add(mul(i, 16, 64), j, 64)) for j in range(16)]
            x.el, y.el = at(x), at(y)
        else:
            x = B.vec("x", tp, m, **kw); y0 = B.vec("y0", tp, n, **kw)
            y = B.vec("y", tp, n, at=lambda u: If(slt(u, p, 64), same_el(x.at(u), y0.at(u), tp, w) if not (B.native and not (u < p)) else 0, y0.at(u), 8 * w))
        if tp == "LIST":
            u = z3.BitVec("u_eq", 64)
            o = lambda h, i: orank(S.bv(h.at(i), 64))
            B.st.facts.append(Fact(u, 0, p, eq(o(x, u), o(y, u), 64)))
            B.assume(Or(eq(p, mn, 64), S.icmp("ne", o(x, p), o(y, p), 64)))
            B.e.contracts["cmp_obj"] = c_rec
        else:
            class W: pass
            W.native = B.native; W.B = B
            if B.native:
                if p < mn: B.assume(not order(W, el(x, p), el(y, p), tp)[1])
            else: B.assume(Or(eq(p, mn, 64), Not(order(W, el(x, p), el(y, p), tp)[1])))
        B.h = (x, y, m, n, mn, p); return [x, y]
    def post(V, r):
        x, y, m, n, mn, p = V.B.h
        if not V.native:
            V.use(p)
            if tp == "GUID":
                for d in V.st.ghost.get("memcmp", ()):
                    for j in range(16): V.use(norm(add(mul(p, 16, 64), j, 64)))
        if V.native and p >= mn: l, e = slt(m, n, 64), eq(m, n, 64)
        else:
            if tp == "LIST": l, e = slt(orank(x.at(p)), orank(y.at(p)), 64), False
            else: l, e = order(V, el(x, p), el(y, p), tp)
            if not V.native:
                t = eq(p, mn, 64); l, e = If(t, slt(m, n, 64), l, 1), If(t, eq(m, n, 64), e, 1)
        sign(V, r, l, e)
    return Inst("cmp_obj(%s)" % tp, "cmp_obj", setup, post, module="rayforce", contracts=dict(CON), native=tp != "LIST", nat=dict(runtime=True) if tp == "SYMBOL" else None)
def pair(tp):
    """DICT, TABLE: keys first, then values"""
    def setup(B):
        x, y = B.vec("x", tp, 2, w=8), B.vec("y", tp, 2, w=8); B.h = (x, y); B.e.contracts["cmp_obj"] = c_rec; return [x, y]
    def post(V, r):
        x, y = V.B.h; o = lambda h, i: orank(S.bv(h.at(i), 64))
        k = eq(o(x, 0), o(y, 0), 64)
        sign(V, r, If(k, slt(o(x, 1), o(y, 1), 64), slt(o(x, 0), o(y, 0), 64), 1), And(k, eq(o(x, 1), o(y, 1), 64)))
    WIDTH.setdefault(tp, 8)
    return Inst("cmp_obj(%s)" % tp, "cmp_obj", setup, post, module="rayforce", contracts=dict(CON), native=False)
def other():
    """different types: ordered by type"""
    def setup(B):
        x, y = B.vec("x", "I64", 0), B.vec("y", "I64", 0); return [x, y]
def instances(tier="quick"):
    from contracts.c02 import strcmp_inst
    A = ("B8", "U8", "C8", "I16", "I32", "DATE", "TIME", "I64", "TIMESTAMP", "SYMBOL", "F64", "GUID")
    out = [strcmp_inst()] + [atom(t) for t in A] + [vec(t) for t in A + ("LIST",)]
    return out + [pair("DICT"), pair("TABLE")]
