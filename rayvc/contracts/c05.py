"""C05: times of day and timestamps <-> their printed fields."""
from spec import *
import sym as S
from contract import Inst
from contracts import c04
from contracts.c04 import field, days, dim, rng, pack, unpack, DMIN, DMAX
NI, NL = 1 << 31, 1 << 63
M64 = (1 << 64) - 1
NSD = 86400 * 10**9
def lor(*a):
    r = a[0]
    for x in a[1:]: r = S.binop("or", r, x, 64)
    return r
def put(v, w, k): return S.binop("shl", zext(v, w, 64), k, 64)
def lin(*ts):
    """sum of coefficient*term"""
    r = 0
    for c, t in ts: r = add(r, mul(t, c & M64, 64), 64)
    return r
def bit(c): return If(c, 1, 0, 64)
# ---- time of day (milliseconds):  null:8 @0 sign:8 @8 hours:8 @16 mins:8 @24 secs:8 @32 msecs:16 @48
TMAX = 256 * 3600000 - 1
def t_pack(null, sg, h, m, s, ms): return [lor(put(null, 8, 0), put(sg, 8, 8), put(h, 8, 16), put(m, 8, 24), put(s, 8, 32), put(ms, 16, 48)), 0]
def t_fields(r): v = r[0]; return field(v, 0, 8), sext(S.trunc(field(v, 8, 8), 64, 8), 8, 64), field(v, 16, 8), field(v, 24, 8), field(v, 32, 8), field(v, 48, 16)
def t_from():
    def setup(B):
        o = B.int("t", 32, -TMAX, TMAX); B.h = sext(o, 32, 64); return [o]
    def post(V, r):
        nul, sg, h, m, s, ms = t_fields(r); o = V.B.h
        V.check("not null", eq(nul, 0, 64))
        V.check("sign", Or(eq(sg, 1, 64), eq(sg, M64, 64)))
        V.check("fields in range", And(rng(h, 0, 255), rng(m, 0, 59), rng(s, 0, 59), rng(ms, 0, 999)))
        V.check("a time of day has hours below 24", Implies(rng(o, -86399999 & M64, 86399999), rng(h, 0, 23)))
        t = lin((3600000, h), (60000, m), (1000, s), (1, ms))
        V.check("recomposes", eq(o, If(eq(sg, 1, 64), t, sub(0, t, 64), 64), 64))
    return Inst("time_from_i32", "time_from_i32", setup, post, module="time")
def t_from_null():
    return Inst("time_from_i32(null)", "time_from_i32", lambda B: [NI], lambda V, r: V.check("null", S.icmp("ne", t_fields(r)[0], 0, 64)), module="time")
def t_into(sgn):
    def setup(B):
        sg = sgn & 0xff; h = B.int("h", 8); m = B.int("m", 8, 0, 59); s = B.int("s", 8, 0, 59); ms = B.int("ms", 16, 0, 999)
        B.h = (sgn & M64,) + tuple(zext(x, w, 64) for x, w in ((h, 8), (m, 8), (s, 8), (ms, 16)))
        return t_pack(0, sg, h, m, s, ms)
    def post(V, r):
        sg, h, m, s, ms = V.B.h; t = lin((3600000, h), (60000, m), (1000, s), (1, ms))
        V.check("recomposes", eq(sext(r, 32, 64), If(eq(sg, 1, 64), t, sub(0, t, 64), 64), 64))
    return Inst("time_into_i32(sign %d)" % sgn, "time_into_i32", setup, post, module="time")
def t_into_null():
    def setup(B): return t_pack(1, *[B.int("f%d" % i, w) for i, w in enumerate((8, 8, 8, 8, 16))])
    return Inst("time_into_i32(null)", "time_into_i32", setup, lambda V, r: V.check("null", eq(r, NI, 32)), module="time")
# ---- timespan (8 bytes): hours:8 @0 mins:8 @8 secs:8 @16 nanos:32 @32
def sp_fields(v): return field(v, 0, 8), field(v, 8, 8), field(v, 16, 8), field(v, 32, 32)
def sp_val(h, m, s, n): return lin((3600 * 10**9, h), (60 * 10**9, m), (10**9, s), (1, n))
def sp_ok(h, m, s, n): return And(rng(h, 0, 23), rng(m, 0, 59), rng(s, 0, 59), rng(n, 0, 10**9 - 1))
def sp_from():
    def setup(B):
        v = B.int("nanos", 64, 0, NSD - 1); B.h = v; return [v]
    def post(V, r):
        f = sp_fields(r); V.check("fields in range", sp_ok(*f)); V.check("recomposes", eq(sp_val(*f), V.B.h, 64))
    return Inst("timespan_from_nanos", "timespan_from_nanos", setup, post, module="timestamp")
def sp_into():
    def setup(B):
        f = (B.int("h", 8, 0, 23), B.int("m", 8, 0, 59), B.int("s", 8, 0, 59), B.int("n", 32, 0, 10**9 - 1))
        B.h = tuple(zext(x, w, 64) for x, w in zip(f, (8, 8, 8, 32)))
        return [lor(put(f[0], 8, 0), put(f[1], 8, 8), put(f[2], 8, 16), put(f[3], 32, 32))]
    return Inst("timespan_into_nanos", "timespan_into_nanos", setup, lambda V, r: V.check("recomposes", eq(r, sp_val(*V.B.h), 64)), module="timestamp")
# ---- timestamp (16 bytes in two registers): null:8@0 year:16@16 month:8@32 day:8@40 hours:8@48 mins:8@56 | secs:8@0 nanos:32@32
def ts_pack(null, y, mo, d, h, m, s, n):
    return [lor(put(null, 8, 0), put(y, 16, 16), put(mo, 8, 32), put(d, 8, 40), put(h, 8, 48), put(m, 8, 56)), lor(put(s, 8, 0), put(n, 32, 32))]
def ts_fields(r): return field(r[0], 0, 8), field(r[0], 16, 16), field(r[0], 32, 8), field(r[0], 40, 8), field(r[0], 48, 8), field(r[0], 56, 8), field(r[1], 0, 8), field(r[1], 32, 32)
def valid_date(Y, M, D): return And(rng(Y, 1, c04.YMAX), rng(M, 1, 12), rng(D, 1, 31), S.icmp("sle", D, dim(Y, M), 64))
def c_date_from(e, st, a, ins):
    """date_from_i32(d), d within years 1..9999: a valid date with that day number (C04)"""
    o = sext(a[0], 32, 64)
    e.check(st, rng(o, DMIN, DMAX), "date_from_i32:range")
    y, m, d = e.fresh_const("year", 16), e.fresh_const("month", 8), e.fresh_const("day", 8)
    Y, M, D = zext(y, 16, 64), zext(m, 8, 64), zext(d, 8, 64)
    st.assume(valid_date(Y, M, D))
    st.ghost["date"] = st.ghost.get("date", ()) + ((o, Y, M, D),)
    return [(st, [pack(0, y, m, d), e.fresh_const("pad", 64)])]
def c_into_days(w):
    def c(e, st, a, ins):
        """date_into_days / date_into_i32 of a valid date: its day number (C04)"""
        nul, Y, M, D = unpack(a[0])
        e.check(st, And(eq(nul, 0, 64), valid_date(Y, M, D)), "date_into_days:valid date")
        n = e.fresh_const("days", w); N = sext(n, w, 64)
        st.assume(rng(N, DMIN, DMAX)); st.ghost["date"] = st.ghost.get("date", ()) + ((N, Y, M, D),)
        return [(st, n)]
    return c
def c_sp_from(e, st, a, ins):
    """timespan_from_nanos(n), 0 <= n < 1 day: fields in range that recompose to n (proved separately)"""
    e.check(st, rng(a[0], 0, NSD - 1), "timespan_from_nanos:range")
    f = [e.fresh_const("sp", w) for w in (8, 8, 8, 32)]; F = [zext(x, w, 64) for x, w in zip(f, (8, 8, 8, 32))]
    st.assume(sp_ok(*F)); st.assume(eq(sp_val(*F), a[0], 64))
    return [(st, lor(put(f[0], 8, 0), put(f[1], 8, 8), put(f[2], 8, 16), put(f[3], 32, 32)))]
def c_sp_into(e, st, a, ins):
    """timespan_into_nanos(fields in range): their value (proved separately)"""
    f = sp_fields(a[0]); e.check(st, sp_ok(*f), "timespan_into_nanos:fields in range")
    return [(st, sp_val(*f))]
CC = {"timespan_from_nanos": c_sp_from, "timespan_into_nanos": c_sp_into, "date_from_i32": c_date_from, "date_into_days": c_into_days(64), "date_into_i32": c_into_days(32)}
def same_date(V, o, Y, M, D):
    """days(Y,M,D) == o, through the day-number contracts of C04 where the code used them"""
    if not V.native:
        for g in V.st.ghost.get("date", ()):
            if V.e.implied(V.st, And(eq(g[1], Y, 64), eq(g[2], M, 64), eq(g[3], D, 64))): return eq(g[0], o, 64)
    return eq(days(Y, M, D), o, 64)
def ts_from():
    def setup(B):
        v = B.int("ts", 64); B.assume(S.icmp("ne", v, NL, 64)); B.h = v; return [v]
    def post(V, r):
        nul, Y, M, D, h, m, s, n = ts_fields(r)
        V.check("not null", eq(nul, 0, 64)); V.check("valid date", valid_date(Y, M, D)); V.check("time fields in range", sp_ok(h, m, s, n))
        sp = sp_val(h, m, s, n)
        if V.native: V.check("recomposes", eq(add(mul(days(Y, M, D), NSD, 64), sp, 64), V.B.h, 64)); return
        for g in V.st.ghost.get("date", ()):
            if V.e.implied(V.st, And(eq(g[1], Y, 64), eq(g[2], M, 64), eq(g[3], D, 64))): V.check("recomposes", eq(add(mul(g[0], NSD, 64), sp, 64), V.B.h, 64)); return
        V.check("recomposes", eq(add(mul(days(Y, M, D), NSD, 64), sp, 64), V.B.h, 64))
    return Inst("timestamp_from_i64", "timestamp_from_i64", setup, post, module="timestamp", contracts=CC)
def ts_from_null():
    return Inst("timestamp_from_i64(null)", "timestamp_from_i64", lambda B: [NL], lambda V, r: V.check("null", S.icmp("ne", ts_fields(r)[0], 0, 64)), module="timestamp", contracts=CC)
def ts_into():
    def setup(B):
        ws = (16, 8, 8, 8, 8, 8, 32)
        f = (B.int("year", 16, 1708, 2261), B.int("month", 8, 1, 12), B.int("day", 8, 1, 31), B.int("h", 8, 0, 23), B.int("m", 8, 0, 59), B.int("s", 8, 0, 59), B.int("n", 32, 0, 10**9 - 1))
        B.h = tuple(zext(x, w, 64) for x, w in zip(f, ws)); Y, M, D = B.h[:3]
        B.assume(S.icmp("sle", D, dim(Y, M), 64))
        return ts_pack(0, *f)
    def post(V, r):
        Y, M, D, h, m, s, n = V.B.h; sp = sp_val(h, m, s, n)
        if not V.native:
            for g in V.st.ghost.get("date", ()):
                if V.e.implied(V.st, And(eq(g[1], Y, 64), eq(g[2], M, 64), eq(g[3], D, 64))): V.check("recomposes", eq(r, add(mul(g[0], NSD, 64), sp, 64), 64)); return
        V.check("recomposes", eq(r, add(mul(days(Y, M, D), NSD, 64), sp, 64), 64))
    return Inst("timestamp_into_i64", "timestamp_into_i64", setup, post, module="timestamp", contracts=CC)
def ts_into_null():
    def setup(B):
        f = [B.int("f%d" % i, w) for i, w in enumerate((16, 8, 8, 8, 8, 8, 32))]
        return ts_pack(1, *f)
    return Inst("timestamp_into_i64(null)", "timestamp_into_i64", setup, lambda V, r: V.check("null", eq(r, NL, 64)), module="timestamp", contracts=CC)
def instances(tier="quick"):
    return [t_from(), t_from_null(), t_into(1), t_into(-1), t_into_null(), sp_from(), sp_into(), ts_from(), ts_from_null(), ts_into(), ts_into_null()]
