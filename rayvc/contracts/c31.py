"""C31: (take x n) has |n| elements: x repeated cyclically from its start, or, for n<0, so that it ends with the end of x; (take x [s m]) is
the slice of at most m elements from s (from the end when negative), clamped to x."""
from spec import *
import sym as S
from sym import norm
from contract import Inst, CODE, WIDTH, LIM
from engine import Ptr
import contracts.c09 as P
from contracts.c18 import listat, T1
CNT = ("I64", "I32", "I16")
def val(V, x, k, tp):
    return x.at(k)
def chk(V, r, x, k, pos, tp, name="element"):
    w = WIDTH[tp]
    if tp == "LIST" and not V.native: V.check(name, eq(P.asint(V.el(r, k, w)), x.at(pos), 64)); return
    V.check(name, eq(V.el(r, k, w), x.at(pos), 8 * w))
def count_atom(B, ct):
    w = WIDTH[ct]; hi = min(LIM // 2, (1 << (8 * w - 1)) - 1)
    if B.native:
        v = B.rng.choice([B.rng.randint(-12, 12), B.rng.randint(-3, 3), B.rng.randint(-3000, 3000), -(1 << (8 * w - 1))]); c = v & mask(8 * w); B.log.append(("n", v))
    else:
        c = B.int("n", 8 * w); B.assume(Or(eq(c, 1 << (8 * w - 1), 8 * w), And(S.icmp("sge", c, -hi & mask(8 * w), 8 * w), S.icmp("sle", c, hi, 8 * w))))
    return c, B.atom("count", ct, val=c)
def cyclic(tp, ct):
    w = WIDTH[tp]; cw = 8 * WIDTH[ct]
    def setup(B):
        N = B.int("N", 64, 0, LIM // 2); x = B.vec("x", tp, N, **listat(B, tp)); c, a = count_atom(B, ct)
        B.h = (x, N, c); return [x, a]
    def post(V, r):
        x, N, c = V.B.h; c64 = widen(c, ct, 64); isn = eq(c, 1 << (cw - 1), cw); neg = S.icmp("slt", c64, 0, 64)
        m = If(neg, sub(0, c64, 64), c64, 64)
        case = V.case
        # (take x null) is an error; an empty value stays empty
        case(isn, lambda: V.check("null count", V.iserr(r)))
        case(And(Not(isn), eq(N, 0, 64)), lambda: V.check("empty", V.is_ptr(r, x)))
        def go(sgnneg):
            V.check("type", eq(V.typ(r), CODE[tp], 8)); V.check("length", eq(V.len(r), m, 64))
            def f(k):
                if not sgnneg: pos = S.binop("srem", k, N, 64)
                else: pos = S.binop("srem", add(sub(N, S.binop("srem", m, N, 64), 64), k, 64), N, 64)     # congruent to k - m modulo N
                chk(V, r, x, k, pos if V.native else norm(pos), tp)
            V.forall("elem", 0, m, f)
        case(And(Not(isn), Not(eq(N, 0, 64)), Not(neg)), lambda: go(False))
        case(And(Not(isn), Not(eq(N, 0, 64)), neg), lambda: go(True))
    return Inst("ray_take(%s,%s)" % (tp, ct.lower()), "ray_take", setup, post, module="items")
def atom(tp, ct):
    w = WIDTH[tp]; cw = 8 * WIDTH[ct]
    def setup(B):
        if tp == "GUID": x = B.vec("x", "GUID", 1, code=-CODE["GUID"])
        else: x = B.atom("x", tp)
        c, a = count_atom(B, ct); B.h = (x, c); return [x, a]
    def post(V, r):
        x, c = V.B.h; c64 = widen(c, ct, 64); isn = eq(c, 1 << (cw - 1), cw); neg = S.icmp("slt", c64, 0, 64)
        m = If(neg, sub(0, c64, 64), c64, 64)
        def f(k): V.check("element", eq(V.el(r, k, w), x.at(0) if tp == "GUID" else x.v, 8 * w))
        def ok():
            V.check("type", eq(V.typ(r), CODE[tp], 8)); V.check("length", eq(V.len(r), m, 64))
            V.forall("elem", 0, m, f)
        V.case(isn, lambda: V.check("null count", V.iserr(r))); V.case(Not(isn), ok)
    return Inst("ray_take(-%s,%s)" % (tp, ct.lower()), "ray_take", setup, post, module="items")
def slice_(tp):
    w = WIDTH[tp]
    def setup(B):
        N = B.int("N", 64, 0, LIM // 2); x = B.vec("x", tp, N, **listat(B, tp))
        rngv = (lambda i: (B.rng.randint(-N - 2, N + 2) if i == 0 else B.rng.choice([B.rng.randint(-1, N + 3), (1 << 63) - 1])) & mask(64)) if B.native else None
        y = B.vec("range", "I64", 2, **(dict(at=rngv) if B.native else {})); B.h = (x, N, y); return [x, y]
    def post(V, r):
        x, N, y = V.B.h; s, m = y.at(0), y.at(1)
        neg = S.icmp("slt", m, 0, 64)
        a = If(S.icmp("slt", s, 0, 64), add(N, s, 64), s, 64)
        a = If(S.icmp("slt", a, 0, 64), 0, If(S.icmp("sgt", a, N, 64), N, a, 64), 64)
        room = sub(N, a, 64); cnt = If(S.icmp("sgt", m, room, 64), room, m, 64)
        def ok():
            V.check("type", eq(V.typ(r), CODE[tp], 8)); V.check("length", eq(V.len(r), cnt, 64))
            V.forall("elem", 0, cnt, lambda k: chk(V, r, x, k, add(a, k, 64) if V.native else norm(add(a, k, 64)), tp))
        V.case(neg, lambda: V.check("negative amount", V.iserr(r))); V.case(Not(neg), ok)
    return Inst("ray_take(%s,range)" % tp, "ray_take", setup, post, module="items")
def instances(tier="quick"):
    out = [cyclic(t, c) for t in T1 for c in (CNT if t == "I64" or tier != "quick" else ("I64",))]
    out += [atom(t, c) for t in T1 if t not in ("LIST",) for c in (CNT if t == "I64" or tier != "quick" else ("I64",))]
    return out + [slice_(t) for t in T1]
def extra(): return P.extra()
