"""C04: calendar dates <-> day numbers.  The specification is the proleptic Gregorian calendar."""
from spec import *
import sym as S
from contract import Inst, CODE
NI = 1 << 31
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def K(op, *a): return S.binop(op, *a)
def q(v, c): return S.binop("udiv", v, c, 64)
def leap(y):
    """y: 64-bit year number"""
    z = lambda c: S.icmp("eq", S.binop("urem", y, c, 64), 0, 64)
    return And(z(4), Or(Not(z(100)), z(400)))
def ybd(y):
    """days in years 1..y"""
    return add(add(mul(y, 365, 64), sub(q(y, 4), q(y, 100), 64), 64), q(y, 400), 64)
EP = 1999 * 365 + 1999 // 4 - 1999 // 100 + 1999 // 400
def pick(i, tab, w=64):
    r = tab[-1]
    for k in range(len(tab) - 2, -1, -1): r = If(S.icmp("eq", i, k, 64), tab[k], r, w)
    return r
def dim(y, m):
    return add(pick(sub(m, 1, 64), LEN), If(And(leap(y), eq(m, 2, 64)), 1, 0, 64), 64)
def cum(y, m):
    return add(pick(sub(m, 1, 64), CUM[:12]), If(And(leap(y), S.icmp("sgt", m, 2, 64)), 1, 0, 64), 64)
def days(y, m, d):
    """day number of a calendar date, 2000.01.01 = 0"""
    return sub(add(add(ybd(sub(y, 1, 64)), cum(y, m), 64), d, 64), EP + 1, 64)
def pack(null, y, m, d):
    """datestruct_t as passed in registers: null:8 @0, year:16 @16, month:8 @32, day:8 @40"""
    sh = lambda v, w, k: S.binop("shl", zext(v, w, 64), k, 64)
    return S.binop("or", S.binop("or", zext(null, 8, 64), sh(y, 16, 16), 64), S.binop("or", sh(m, 8, 32), sh(d, 8, 40), 64), 64)
def field(v, k, w): return zext(S.trunc(S.binop("lshr", v, k, 64), 64, w), w, 64)
def unpack(v): return field(v, 0, 8), field(v, 16, 16), field(v, 32, 8), field(v, 40, 8)
YMAX = 9999
def rng(v, lo, hi): return And(S.icmp("sle", lo, v, 64), S.icmp("sle", v, hi, 64))

def c_leap(e, st, a, ins):
    """leap_year(y): 1 for Gregorian leap years, else 0 (proved separately)"""
    y = zext(a[0], 16, 64); l = leap(y)
    e.check(st, S.icmp("ule", a[0], 0x7fff, 16), "leap_year:range")
    out = []
    for v, c in ((1, l), (0, Not(l))):
        s2 = st.copy(); s2.assume(c)
        if e.feasible(s2): out.append((s2, v))
    return out
def c_ybd(e, st, a, ins):
    """years_by_days(y): days in the years 1..y (proved separately)"""
    e.check(st, S.icmp("ule", a[0], YMAX, 16), "years_by_days:range")
    return [(st, S.trunc(ybd(zext(a[0], 16, 64)), 64, 32))]
def bounds(y, n):
    """365.2425*y - 1.7475 <= ybd(y) <= 365.2425*y + 0.99"""
    d = sub(mul(n, 10000, 64), mul(y, 3652425, 64), 64)
    return And(S.icmp("sle", -17475 & M64, d, 64), S.icmp("sle", d, 9900, 64))
M64 = (1 << 64) - 1
def step(y, n, n1): return eq(n1, add(add(n, 365, 64), If(leap(add(y, 1, 64)), 1, 0, 64), 64), 64)
def lemma_inst():
    """the two lemmas used below about ybd (no code: proved from the definition)"""
    def setup(B):
        y = B.int("y", 16, 0, YMAX); B.h = zext(y, 16, 64); return [y]
    def post(V, r):
        y = V.B.h
        if V.native: return
        V.check("lemma: bounds", bounds(y, ybd(y))); V.check("lemma: step", step(y, ybd(y), ybd(add(y, 1, 64))))
    return Inst("lemmas of years_by_days", "years_by_days", setup, post, module="temporal")
def c_ybd_abs(e, st, a, ins):
    """years_by_days(y), known by its lemmas only: ybd(y) within [365.2425y-1.7475, 365.2425y+0.99], ybd(y+1) = ybd(y)+365+leap(y+1)"""
    if S.isc(a[0]): return c_ybd(e, st, a, ins)
    e.check(st, S.icmp("ule", a[0], YMAX, 16), "years_by_days:range")
    y = zext(a[0], 16, 64); rec = st.ghost.get("ybd", ())
    for y0, n0 in rec:
        if e.implied(st, eq(y0, y, 64)): return [(st, S.trunc(n0, 64, 32))]
    m = e.fresh_const("ybd", 32); n = sext(m, 32, 64)
    st.assume(rng(n, 0, 3652059)); st.assume(bounds(y, n))
    for y0, n0 in rec:
        st.assume(Implies(eq(y, y0, 64), eq(n, n0, 64)))
        st.assume(Implies(eq(y, add(y0, 1, 64), 64), step(y0, n0, n)))
        st.assume(Implies(eq(y0, add(y, 1, 64), 64), step(y, n, n0)))
    st.ghost["ybd"] = rec + ((y, n),)
    return [(st, m)]
CC = {"leap_year": c_leap, "years_by_days": c_ybd}
def into(name, w, mon):
    def setup(B):
        y = B.int("year", 16, 1, YMAX); m = mon; d = B.int("day", 8, 1, 31, signed=False)
        Y, M, D = zext(y, 16, 64), zext(m, 8, 64), zext(d, 8, 64)
        B.assume(S.icmp("sle", D, dim(Y, M), 64)); B.h = (Y, M, D)
        return [pack(0, y, m, d), 0]
    def post(V, r):
        Y, M, D = V.B.h; r = sext(r, w, 64)
        V.check("day number", eq(r, days(Y, M, D), 64))
        if V.native: return
        # lemma: the next calendar day has the next number
        last = eq(D, dim(Y, M), 64); dec = And(last, eq(M, 12, 64))
        y2 = If(dec, add(Y, 1, 64), Y, 64); m2 = If(last, If(dec, 1, add(M, 1, 64), 64), M, 64); d2 = If(last, 1, add(D, 1, 64), 64)
        V.check("lemma: the next calendar day has the next number", eq(days(y2, m2, d2), add(days(Y, M, D), 1, 64), 64))
    return Inst("%s(month %d)" % (name, mon), name, setup, post, module="date" if w == 32 else "timestamp", contracts=CC)
def into_null():
    def setup(B):
        v = B.int("rest", 64); return [pack(1, S.trunc(S.binop("lshr", v, 16, 64), 64, 16), S.trunc(v, 64, 8), S.trunc(S.binop("lshr", v, 8, 64), 64, 8)), 0]
    return Inst("date_into_i32(null)", "date_into_i32", setup, lambda V, r: V.check("null", eq(r, NI, 32)), module="date", opts={"noreturn": False})
DMIN, DMAX = days(1, 1, 1), days(YMAX, 12, 31)
def from_(mlo):
    def setup(B):
        o = B.int("day", 32, S.trunc(DMIN, 64, 32), DMAX); B.h = sext(o, 32, 64)
        return [o]
    def post(V, r):
        v = r[0]; nul, Y, M, D = unpack(v); o = V.B.h
        V.check("not null", eq(nul, 0, 64))
        V.check("month", rng(M, 1, 12)); V.check("year", rng(Y, 1, YMAX))
        V.check("day", And(rng(D, 1, 31), S.icmp("sle", D, dim(Y, M), 64)))
        if not V.native:
            for y0, n in V.st.ghost.get("ybd", ()):
                if V.e.implied(V.st, eq(Y, add(y0, 1, 64), 64)):
                    return V.check("is that day", eq(sub(add(add(n, cum(Y, M), 64), D, 64), EP + 1, 64), o, 64))
        V.check("is that day", eq(days(Y, M, D), o, 64))
    return Inst("date_from_i32", "date_from_i32", setup, post, module="date", contracts={"leap_year": c_leap, "years_by_days": c_ybd_abs}, opts={"unroll": {"date_from_i32": 14}, "budget": 240})
def from_null():
    return Inst("date_from_i32(null)", "date_from_i32", lambda B: [NI], lambda V, r: V.check("null", S.icmp("ne", unpack(r[0])[0], 0, 64)), module="date")
def leap_inst():
    def setup(B):
        y = B.int("y", 16, 0, 0x7fff); B.h = zext(y, 16, 64); return [y]
    return Inst("leap_year", "leap_year", setup, lambda V, r: V.check("leap", eq(r, If(leap(V.B.h), 1, 0, 8), 8)), module="temporal")
def dim_inst():
    def setup(B):
        y = B.int("y", 16, 1, YMAX); m = B.int("m", 8, 1, 12); B.h = (zext(y, 16, 64), zext(m, 8, 64)); return [y, m]
    return Inst("days_in_month", "days_in_month", setup, lambda V, r: V.check("length", eq(zext(r, 8, 64), dim(*V.B.h), 64)), module="temporal")
def ybd_inst():
    def setup(B):
        y = B.int("y", 16, 0, YMAX); B.h = zext(y, 16, 64); return [y]
    return Inst("years_by_days", "years_by_days", setup, lambda V, r: V.check("days", eq(sext(r, 32, 64), ybd(V.B.h), 64)), module="temporal")
def instances(tier="quick"):
    return [into(f, w, m) for f, w in (("date_into_i32", 32), ("date_into_days", 64)) for m in range(1, 13)] + [into_null(), from_(0), from_null(), leap_inst(), dim_inst(), ybd_inst(), lemma_inst()]
