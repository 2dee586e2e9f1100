"""C18: reading positions. at_idx / ray_at / at_obj read element i (or count+i) or give the null of the element type; gathers (at_ids, the
vector forms of ray_at) read exactly the named positions; nothing outside the vector is read (bounds obligations of every load)."""
from spec import *
import sym as S, z3
from sym import norm
from contract import Inst, CODE, WIDTH, LIM
from engine import Ptr, Fact
import contracts.c09 as P
T1 = ("B8", "U8", "C8", "I16", "I32", "DATE", "TIME", "I64", "SYMBOL", "TIMESTAMP", "F64", "GUID", "LIST")
CHECKED = ("GUID", "LIST")
def listat(B, tp): return dict(at=lambda i: B.nullobj()) if B.native and tp == "LIST" else {}
def isnul_atom(V, r, tp):
    """r is the null of type tp (the generic null where the type has none of its own)"""
    if tp in ("LIST",): return V.isnullobj(r)
    if tp == "GUID": return V.isnullobj(r)
    w = WIDTH[tp]
    if V.isnullobj(r): return False
    t = eq(V.typ(r), (-CODE[tp]) & 0xff, 8)
    v = V.av(r, w)
    return And(t, isnan(v)) if tp == "F64" else And(t, eq(v, null(tp), 8 * w))
def is_elem(V, r, x, k, tp):
    w = WIDTH[tp]
    if tp == "LIST":
        if V.native: return r == x.at(k)
        return same(V, r, x.at(k))
    if V.isnullobj(r): return False
    t = eq(V.typ(r), (-CODE[tp]) & 0xff, 8)
    if tp == "GUID":
        v = x.at(k)
        for j in range(16): t = And(t, eq(V.rd(r, 16 + j, 1), S.extract_bytes(v, 16, j, 1), 8))
        return t
    return And(t, eq(V.av(r, w), x.at(k), 8 * w))
def same(V, r, v): return isinstance(r, Ptr) and r.r is None and eq(r.o, v, 64)
def at_atom(fn, tp, module="rayforce"):
    w = WIDTH[tp]
    def setup(B):
        N = B.int("N", 64, 0, LIM if w <= 8 else LIM // 2); i = B.int("i", 64)
        if B.native and B.rng.random() < 0.7: i = B.rng.randint(-N - 2, N + 2) & mask(64); B.log.append(("i", sgn(i, 64)))
        x = B.vec("x", tp, N, **listat(B, tp)); B.h = (x, N, i)
        return [x, i if fn == "at_idx" else B.atom("y", "I64", val=i)]
    def post(V, r):
        x, N, i = V.B.h; nulli = eq(i, N64, 64)
        k = If(slt(i, 0, 64), add(N, i, 64), i, 64); ok = And(Not(nulli), S.icmp("sle", 0, k, 64), slt(k, N, 64))
        if V.native:
            V.check("element", is_elem(V, r, x, sgn(k, 64), tp)) if ok else V.check("null", isnul_atom(V, r, tp)); return
        st0 = V.st
        for c in (True, False):
            st = st0.copy(); st.assume(ok if c else Not(ok)); V.st = st
            if V.e.feasible(st): V.check("element", is_elem(V, r, x, norm(k), tp)) if c else V.check("null", isnul_atom(V, r, tp))
        V.st = st0
    return Inst("%s(%s)" % (fn, tp), fn, setup, post, module=module)
def nul(tp):
    def setup(B): return [CODE[tp]]
    return Inst("null(%s)" % tp, "null", setup, lambda V, r: V.check("null", isnul_atom(V, r, tp)), module="rayforce")
def nullvec(tp, neg):
    w = WIDTH[tp]
    def setup(B):
        n = B.int("n", 64, 0, LIM if w <= 8 else LIM // 2); B.h = n; return [(-CODE[tp] if neg else CODE[tp]) & 0xff, n]
    def post(V, r):
        n = V.B.h; V.check("type", eq(V.typ(r), CODE[tp], 8)); V.check("length", eq(V.len(r), n, 64))
        def f(k):
            v = V.el(r, k, w)
            if tp == "LIST": V.check("null", v == V.null_obj if V.native else V.isnullobj(v)); return
            V.check("null", isnan(v) if tp == "F64" else eq(v, 0 if tp == "GUID" else null(tp), 8 * w))
        V.forall("null", 0, n, f)
    return Inst("nullv(%s%s)" % ("-" if neg else "", tp), "nullv", setup, post, module="rayforce")
def in_range(B, y, lo, hi, N):
    """every position in y[lo..hi) is a row of x"""
    u = z3.BitVec("u_in", 64)
    B.st.facts.append(Fact(u, lo, hi, And(S.icmp("sge", y.arr(u), 0, 64), S.icmp("slt", y.arr(u), N, 64))))
def ids_at(B, N): return dict(at=lambda i: B.rng.randrange(N) if N > 0 else 0) if B.native else {}
def gather_kernel(tp):
    """at_ids_partial(obj, ids, len, offset, out): out[k] = obj[ids[k]] for offset <= k < offset+len, nothing else; requires every ids[k] a row"""
    w = WIDTH[tp]
    def setup(B):
        lim = LIM if w <= 8 else LIM // 2
        N = B.int("N", 64, 0, lim); M = B.int("M", 64, 0, lim); off = B.int("off", 64, 0, M); ln = B.int("len", 64, 0, norm(S.binop("sub", M, off, 64)))
        if B.native: B.assume(N > 0)
        x = B.vec("x", tp, N, **listat(B, tp)); ids = B.buf("ids", M, 8, **ids_at(B, N)); out = B.vec("out", tp, M, writable=True, **listat(B, tp))
        if not B.native: in_range(B, ids, off, add(off, ln, 64), N)
        B.h = (x, ids, out, M, off, ln); return [x, ids, ln, off, out]
    def post(V, r):
        x, ids, out, M, off, ln = V.B.h; end = add(off, ln, 64)
        V.check("ok", V.isnullobj(r))
        def f(k):
            V.use(k)
            v = V.el(out.p, k, w)
            if tp == "LIST" and not V.native: V.check("element", eq(P.asint(v), x.at(ids.at(k)), 64)); return
            V.check("element", eq(v, x.at(ids.at(k)), 8 * w))
        V.forall("elem", off, end, f)
        if tp != "LIST" or V.native:
            V.forall("below", 0, off, lambda k: V.check("frame", eq(V.el(out.p, k, w), out.at(k), 8 * w)))
            V.forall("above", end, M, lambda k: V.check("frame", eq(V.el(out.p, k, w), out.at(k), 8 * w)))
    return Inst("at_ids_partial(%s)" % tp, "at_ids_partial", setup, post, module="rayforce")
def gather_driver(tp):
    def build(B, L):
        if B.native:
            x, ids = P.big(B, tp, 5000), P.big(B, "I64", L); import ctypes as C
            w = WIDTH[tp]; rnd = B.rng.randbytes(5000 * w) if tp != "B8" else bytes(B.rng.getrandbits(1) for _ in range(5000))
            C.memmove(x.p + 16, rnd, len(rnd)); a = P.i64s(ids.p + 16, L)
            for i in range(L): a[i] = B.rng.randrange(5000)
            B.gx = (rnd, a, w); return {0: x, 1: ids}, [x, ids.p + 16, L]
        if tp == "GUID": B.assume(S.icmp("sle", L, LIM // 2, 64))
        x = P.header(B, "x", tp, B.int("N", 64, 0, LIM)); ids = B.buf("ids", L, 8)
        return {0: x, 1: ids}, [x, ids, L]
    def natpost(V, r, h):
        rnd, a, w = V.B.gx; L = h["L"]; import ctypes as C
        V.check("length", V.len(r) == L); V.check("type", V.typ(r) == CODE[tp]); got = C.string_at(r + 16, L * w)
        V.check("elements", got == b"".join(rnd[a[i] * w:a[i] * w + w] for i in range(L)))
    return P.driver("at_ids(%s)" % tp, "at_ids", "rayforce", "at_ids_partial", 5, 2, 3, build, "map", outtype=lambda h: CODE[tp], opidx=None, natpost=natpost, native=tp != "LIST")
GATHER = ("B8", "I32", "DATE", "TIME", "I64", "SYMBOL", "TIMESTAMP", "F64", "GUID", "C8", "LIST")
def gather_at(tp):
    """ray_at(vector, positions)"""
    w = WIDTH[tp]
    def setup(B):
        lim = LIM if w <= 8 else LIM // 2
        N = B.int("N", 64, 0, lim); M = B.int("M", 64, 0, lim); x = B.vec("x", tp, N, **listat(B, tp)); y = B.vec("y", "I64", M, **(dict(at=lambda i: B.rng.randint(-2, N + 1) & mask(64)) if B.native else {}))
        B.h = (x, y, N, M); return [x, y]
    def post(V, r):
        x, y, N, M = V.B.h
        V.check("type", eq(V.typ(r), CODE[tp], 8)); V.check("length", eq(V.len(r), M, 64))
        def f(k):
            i = y.at(k); ok = And(S.icmp("sge", i, 0, 64), slt(i, N, 64))
            v = V.el(r, k, w)
            if V.native:
                e = x.at(i) if ok else V.null_obj if tp == "LIST" else 0x20 if tp == "C8" else 0 if tp == "GUID" else null(tp)
                V.check("element", eq(v, e, 8 * w)); return
            st0 = V.st
            for c in (True, False):
                st = st0.copy(); st.assume(ok if c else Not(ok)); V.st = st
                if not V.e.feasible(st): continue
                v = V.el(r, k, w)
                if tp == "LIST": V.check("element" if c else "null", eq(P.asint(v), x.at(i), 64) if c else V.isnullobj(v)); continue
                V.check("element" if c else "null", eq(v, x.at(i) if c else 0x20 if tp == "C8" else 0 if tp == "GUID" else null(tp), 8 * w))
            V.st = st0
        V.forall("elem", 0, M, f)
    return Inst("ray_at(%s,positions)" % tp, "ray_at", setup, post, module="items")
def obj_gather(tp):
    """at_obj(vector, positions): gathers only when every position is a row"""
    def c_at_ids(e, st, a, ins):
        k = e.fresh_const("anyrow"); s2 = st.copy(); s2.inst = s2.inst + [k]; h = hold["h"]
        s2.assume(And(S.icmp("sge", k, 0, 64), slt(k, a[2], 64)))
        e.check(st, isinstance(a[0], Ptr) and a[0].r is h[0].p.r and isinstance(a[1], Ptr) and a[1].r is h[1].p.r and And(eq(a[1].o, 16, 64), eq(a[2], h[3], 64)), "at_ids:of the vector and the positions")
        v = e.read(s2, a[1].r, norm(S.binop("add", a[1].o, mul(k, 8, 64), 64)), 8)
        e.check(s2, And(S.icmp("sge", v, 0, 64), slt(v, h[2], 64)), "at_ids:positions are rows")
        r = P.Region("gathered", 16, P.Init({}), "obj"); st.ghost["gathered"] = r
        return [(st, Ptr(r, 0))]
    hold = {}
    def setup(B):
        N = B.int("N", 64, 0, LIM); M = B.int("M", 64, 0, LIM); x = B.vec("x", tp, N); y = B.vec("y", "I64", M); hold["h"] = B.h = (x, y, N, M); return [x, y]
    def post(V, r):
        g = V.st.ghost.get("gathered")
        V.check("gathered or refused", (g is not None and isinstance(r, Ptr) and r.r is g) or V.iserr(r))
    return Inst("at_obj(%s,positions)" % tp, "at_obj", setup, post, module="rayforce", contracts={"at_ids": c_at_ids}, native=False)
PT = ("B8", "U8", "I16", "I32", "DATE", "TIME", "I64", "TIMESTAMP", "F64", "GUID")
PARTED = 77
def parted(B, tp, l):
    w = WIDTH[tp]; lim = LIM if w <= 8 else LIM // 2
    ns = [B.int("n%d" % i, 64, 0, lim) for i in range(l)]; ps = [B.vec("p%d" % i, tp, n) for i, n in enumerate(ns)]
    cells = {0: (1, 0xff), 1: (1, 0), 2: (1, PARTED + CODE[tp]), 3: (1, 0), 4: (4, 7), 8: (8, l)}
    for i, p in enumerate(ps): cells[16 + 8 * i] = (8, p if B.native else p.p)
    return B.struct("parts", 16 + 8 * max(l, 1), cells, writable=False), ns, ps
def parted_split(V, ns, ps, i):
    """[(condition, partition, position in it)] and the total"""
    out = []; base = 0
    for n, p in zip(ns, ps):
        end = add(base, n, 64); out.append((And(S.icmp("sle", base, i, 64), slt(i, end, 64)), p, norm(S.binop("sub", i, base, 64)))); base = end
    return out, base
def at_parted(tp, l):
    """reading a position of a partitioned column of l partitions (bounded: l <= 3; any partition lengths)"""
    def setup(B):
        x, ns, ps = parted(B, tp, l); i = B.int("i", 64, 0, LIM * 4); B.h = (ns, ps, i); return [x, i]
    def post(V, r):
        ns, ps, i = V.B.h; cs, tot = parted_split(V, ns, ps, i)
        null_c = S.icmp("sge", i, tot, 64)
        def nullchk():
            if tp == "GUID":
                V.check("null", V.isnullobj(r) if V.isnullobj(r) else And(eq(V.typ(r), (-CODE["GUID"]) & 0xff, 8), eq(V.rd(r, 16, 8), 0, 64), eq(V.rd(r, 24, 8), 0, 64)))
            else: V.check("null", isnul_atom(V, r, tp))
        def el(p, k):
            V.check("element", is_elem(V, r, p, k, tp if tp != "U8" else "U8"))
        if V.native:
            for c, p, k in cs:
                if c: el(p, sgn(k, 64)); return
            nullchk(); return
        st0 = V.st
        for c, p, k in cs + [(null_c, None, None)]:
            st = st0.copy(); st.assume(c); V.st = st
            if V.e.feasible(st): el(p, k) if p is not None else nullchk()
        V.st = st0
    return Inst("at_idx(PARTED%s, %d partitions)" % (tp, l), "at_idx", setup, post, module="rayforce", opts=dict(unroll={"at_idx": 4}))
def ids_parted(tp, l, m):
    """gathering m ascending rows of a partitioned column of l partitions (bounded: m, l <= 2)"""
    w = WIDTH[tp]
    def setup(B):
        x, ns, ps = parted(B, tp, l); tot = 0
        for n in ns: tot = add(tot, n, 64)
        if B.native:
            B.assume(tot > 0); v = sorted(B.rng.randrange(tot) for _ in range(m)); ids = B.buf("ids", m, 8, at=lambda i: v[i])
        else:
            v = [B.int("id%d" % i, 64, 0, LIM * 4) for i in range(m)]
            for i in range(m):
                B.assume(slt(v[i], tot, 64))
                if i: B.assume(S.icmp("sle", v[i - 1], v[i], 64))
            ids = B.struct("ids", 8 * m, {8 * i: (8, v[i]) for i in range(m)}, writable=False)
        B.h = (ns, ps, v); return [x, ids, m]
    def post(V, r):
        ns, ps, v = V.B.h
        V.check("type", eq(V.typ(r), CODE[tp], 8)); V.check("length", eq(V.len(r), m, 64))
        st0 = None if V.native else V.st
        for j in range(m):
            cs, tot = parted_split(V, ns, ps, v[j])
            for c, p, k in cs:
                if V.native:
                    if c: V.check("element", V.el(r, j, w) == p.at(sgn(k, 64)))
                    continue
                st = st0.copy(); st.assume(c); V.st = st
                if V.e.feasible(st): V.check("element", eq(V.el(r, j, w), p.at(k), 8 * w))
        if not V.native: V.st = st0
    return Inst("at_ids(PARTED%s, %d partitions, %d rows)" % (tp, l, m), "at_ids", setup, post, module="rayforce", opts=dict(unroll={"at_ids": 6}))
def instances(tier="quick"):
    out = [at_atom("at_idx", t) for t in T1] + [at_atom("ray_at", t, "items") for t in T1] + [at_atom("at_obj", t) for t in T1]
    out += [nul(t) for t in T1 if t not in ("C8",)] + [nul("C8")]
    out += [nullvec(t, n) for t in T1 if t not in ("C8",) for n in (False, True) if not (t == "LIST" and n)]
    out += [gather_kernel(t) for t in T1] + [gather_driver(t) for t in T1] + [gather_at(t) for t in GATHER] + [obj_gather(t) for t in ("U8", "I16", "I64", "GUID")]
    out += [at_parted(t, l) for t in PT for l in (1, 3)] + [ids_parted(t, 2, 2) for t in PT]
    return out
def extra(): return P.extra()
