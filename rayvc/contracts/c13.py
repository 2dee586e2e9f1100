"""C13: sorting a vector of scalars yields the positions of its elements in order of their values, equal ones in order of position.
With N(v,k) = number of i < k whose digit is below v (in the original order), L(v,k) the same in the order the pass scans, the position that
the k-th scanned element gets is R(k) = L(K,n) + L(K+1,k) - L(K,k), K its digit; I is the inverse of R.  The lemmas on these functions are
proved by induction (lemmas()); the loops' array invariants are stated with them."""
from spec import *
import sym as S
from sym import *
from engine import Ptr, Fact, Template, Region, Init, FnPtr, Unsupported
from contract import Inst, CODE, LIM, WIDTH
B64 = z3.BitVecSort(64)
sle = lambda a, b: S.icmp("sle", a, b, 64)
slt = lambda a, b: S.icmp("slt", a, b, 64)
eq64 = lambda a, b: S.icmp("eq", a, b, 64)
add = lambda a, b: norm(S.binop("add", a, b, 64))
sub = lambda a, b: norm(S.binop("sub", a, b, 64))
b64 = lambda x: S.bv(x, 64)
rng = lambda x, lo, hi: And(sle(lo, x), slt(x, hi))
ind = lambda c: If(c, 1, 0, 64)
def fn(name, k): return z3.Function(name, *([B64] * (k + 1)))
# ---- the lemmas, for any digit function into [0, KM) and any number of elements
def lemmas(e, st):
    n, KM = z3.BitVec("ln", 64), z3.BitVec("lKM", 64); v, w, k, x, y, c, m = (z3.BitVec("l" + a, 64) for a in "vwkxycm")
    _K, _L, _V, _J = fn("lK", 1), fn("lL", 2), fn("lV", 2), fn("lJ", 3)
    K = lambda i: _K(b64(i)); L = lambda v, k: _L(b64(v), b64(k)); V = lambda x, w: _V(b64(x), b64(w)); J = lambda v, c, k: _J(b64(v), b64(c), b64(k))
    C = lambda v, k: sub(L(add(v, 1), k), L(v, k)); R = lambda k: add(L(K(k), n), C(K(k), k))
    base = [sle(0, n), slt(n, LIM), slt(0, KM), sle(KM, 1 << 16)]
    recL = lambda v, k: eq64(L(v, k), If(sle(k, 0), 0, add(L(v, sub(k, 1)), ind(slt(K(sub(k, 1)), v))), 64))
    key = lambda k: rng(K(k), 0, KM)
    def prove(name, hyp, goal):
        s2 = st.copy()
        for h in base + hyp: s2.assume(h)
        e.check(s2, goal, "lemma:" + name)
    k1 = add(k, 1)
    def induct(name, P, hyp, at=None, steps=None):
        """P(k) for 0 <= k <= n by induction; steps: definitions at k+1"""
        prove(name + " (base)", hyp + (steps(0) if steps else []), P(0))
        prove(name + " (step)", hyp + [rng(k, 0, n), P(k), key(k)] + steps(k1), P(k1))
    induct("0 <= count <= k", lambda k: And(sle(0, L(v, k)), sle(L(v, k), k)), [], steps=lambda k: [recL(v, k)])
    induct("nothing is below 0", lambda k: eq64(L(v, k), 0), [sle(v, 0)], steps=lambda k: [recL(v, k)])
    induct("all are below KM", lambda k: eq64(L(v, k), k), [sle(KM, v)], steps=lambda k: [recL(v, k)])
    induct("count grows with v", lambda k: And(And(sle(0, L(v, k)), sle(L(w, k), k)), And(sle(L(v, k), L(w, k)), sle(sub(L(w, k), L(v, k)), k))), [sle(v, w)], steps=lambda k: [recL(v, k), recL(w, k)])
    # for k <= m by induction on m: C(v,k) <= C(v,m)
    P = lambda m: Implies(sle(k, m), sle(C(v, k), C(v, m))); m1 = add(m, 1); v1 = add(v, 1)
    vr = [rng(v, 0, KM)]
    prove("digit count grows with k (base)", vr + [sle(0, k)], Implies(eq64(k, m), sle(C(v, k), C(v, m))))
    prove("digit count grows with k (step)", vr + [sle(0, k), rng(m, 0, n), sle(k, m), sle(C(v, k), C(v, m)), rng(C(v, m), 0, LIM), recL(v, m1), recL(v1, m1)], sle(C(v, k), C(v, m1)))
    # facts used below, as just proved
    LB = lambda v, k: And(sle(0, L(v, k)), sle(L(v, k), k))
    LV = lambda v, w, k: And(sle(L(v, k), L(w, k)), sle(sub(L(w, k), L(v, k)), k))
    CK = lambda v, k, m: Implies(sle(k, m), sle(C(v, k), C(v, m)))
    def seen(k):
        """what is known of an element k and its digit"""
        v = K(k); v1 = add(v, 1); k1 = add(k, 1)
        return [rng(k, 0, n), key(k), recL(v, k1), recL(v1, k1), LB(v, n), LB(v1, n), LB(v, k), LB(v1, k), LV(v, v1, k), LV(v, v1, n), CK(v, k1, n), LV(v1, KM, n), eq64(L(KM, n), n)]
    prove("a place is in range", seen(k), rng(R(k), 0, n))
    j = z3.BitVec("lj", 64); own = lambda k: And(sle(L(K(k), n), R(k)), slt(R(k), L(add(K(k), 1), n)))
    prove("a place is among its digit's", seen(k), own(k))
    prove("places follow the digits", [rng(j, 0, n), rng(k, 0, n), own(j), own(k), key(j), key(k), slt(K(j), K(k)), LV(add(K(j), 1), K(k), n)], slt(R(j), R(k)))
    j1 = add(j, 1); Rv = lambda k: add(L(v, n), C(v, k))
    prove("places follow the scan order", vr + [rng(j, 0, n), slt(j, k), slt(k, n), eq64(K(j), v), recL(v, j1), recL(v1, j1), CK(v, j1, k), LB(v, n), LB(v1, n), LB(v, j), LB(v1, j), LB(v, k), LB(v1, k), LV(v, v1, n), LV(v, v1, j), LV(v, v1, k), LV(v, v1, j1)], slt(Rv(j), Rv(k)))
    # the inverse: the digit whose range covers x, then the element of that digit with this rank
    recV = lambda x, w: eq64(V(x, w), If(sle(L(sub(w, 1), n), x), sub(w, 1), V(x, sub(w, 1)), 64))
    recJ = lambda v, c, k: eq64(J(v, c, k), If(sle(C(v, sub(k, 1)), c), sub(k, 1), J(v, c, sub(k, 1)), 64))
    PV = lambda w: Implies(slt(x, L(w, n)), And(rng(V(x, w), 0, w), And(sle(L(V(x, w), n), x), slt(x, L(add(V(x, w), 1), n)))))
    w1 = add(w, 1)
    prove("digit of a place (base)", [rng(x, 0, n), eq64(L(0, n), 0)], PV(0))
    prove("digit of a place (step)", [rng(x, 0, n), rng(w, 0, KM), PV(w), recV(x, w1)], PV(w1))
    PJ = lambda k: Implies(slt(c, C(v, k)), And(rng(J(v, c, k), 0, k), And(eq64(K(J(v, c, k)), v), eq64(C(v, J(v, c, k)), c))))
    prove("element of a rank (base)", vr + [sle(0, c), recL(v, 0), recL(v1, 0)], PJ(0))
    prove("element of a rank (step)", vr + [sle(0, c), rng(k, 0, n), PJ(k), recJ(v, c, k1), recL(v, k1), recL(v1, k1), LB(v, k), LB(v1, k), LV(v, v1, k)], PJ(k1))
    Vx = V(x, KM); Jx = J(Vx, sub(x, L(Vx, n)), n)
    vv, cc = Vx, sub(x, L(Vx, n))
    prove("every place is taken", [rng(x, 0, n), eq64(L(KM, n), n), Implies(slt(x, L(KM, n)), And(rng(vv, 0, KM), And(sle(L(vv, n), x), slt(x, L(add(vv, 1), n))))), LB(vv, n), LB(add(vv, 1), n),
        Implies(slt(cc, C(vv, n)), And(rng(Jx, 0, n), And(eq64(K(Jx), vv), eq64(C(vv, Jx), cc))))], And(rng(Jx, 0, n), eq64(R(Jx), x)))
    lex1 = lambda j, k: Or(slt(K(j), K(k)), And(eq64(K(j), K(k)), slt(j, k)))
    inj = lambda j, k: And(Implies(lex1(j, k), slt(R(j), R(k))), Implies(lex1(k, j), slt(R(k), R(j))))
    prove("one element per place", [rng(j, 0, n), rng(k, 0, n), inj(j, k), eq64(R(j), R(k))], eq64(j, k))
    prove("elements of ascending places ascend", [rng(j, 0, n), rng(k, 0, n), inj(j, k), slt(R(j), R(k))], lex1(j, k))
    # counting does not depend on the order: E is a bijection of [0,n) with inverse Q
    _E, _Q, _k, _F, _N, _S = fn("lE", 1), fn("lQ", 1), fn("lkey", 1), fn("lF", 3), fn("lN", 2), fn("lS", 2)
    E = lambda i: _E(b64(i)); Q = lambda i: _Q(b64(i)); kap = lambda i: _k(b64(i)); F = lambda v, m, k: _F(b64(v), b64(m), b64(k))
    N = lambda v, m: _N(b64(v), b64(m)); SC = lambda v, k: _S(b64(v), b64(k))
    recF = lambda v, m, k: eq64(F(v, m, k), If(sle(k, 0), 0, add(F(v, m, sub(k, 1)), ind(And(slt(E(sub(k, 1)), m), slt(kap(E(sub(k, 1))), v)))), 64))
    recN = lambda v, m: eq64(N(v, m), If(sle(m, 0), 0, add(N(v, sub(m, 1)), ind(slt(kap(sub(m, 1)), v))), 64))
    recS = lambda v, k: eq64(SC(v, k), If(sle(k, 0), 0, add(SC(v, sub(k, 1)), ind(slt(kap(E(sub(k, 1))), v))), 64))
    inv = lambda k: Implies(rng(k, 0, n), And(rng(E(k), 0, n), eq64(Q(E(k)), k)))
    inq = lambda m: Implies(rng(m, 0, n), And(rng(Q(m), 0, n), eq64(E(Q(m)), m)))
    P1 = lambda k: eq64(F(v, m1, k), add(F(v, m, k), ind(And(slt(Q(m), k), slt(kap(m), v)))))
    prove("one more element (base)", [rng(m, 0, n), inq(m), recF(v, m1, 0), recF(v, m, 0)], P1(0))
    prove("one more element (step)", [rng(m, 0, n), rng(k, 0, n), inq(m), inv(k), P1(k), recF(v, m1, k1), recF(v, m, k1)], P1(k1))
    prove("none below position 0 (step)", [rng(k, 0, n), inv(k), eq64(F(v, 0, k), 0), recF(v, 0, k1)], eq64(F(v, 0, k1), 0))
    prove("by position (base)", [eq64(F(v, 0, n), 0), recN(v, 0)], eq64(F(v, 0, n), N(v, 0)))
    prove("by position (step)", [rng(m, 0, n), inq(m), eq64(F(v, m, n), N(v, m)), eq64(F(v, m1, n), add(F(v, m, n), ind(And(slt(Q(m), n), slt(kap(m), v))))), recN(v, m1)], eq64(F(v, m1, n), N(v, m1)))
    prove("by scan (base)", [recF(v, n, 0), recS(v, 0)], eq64(F(v, n, 0), SC(v, 0)))
    prove("by scan (step)", [rng(k, 0, n), inv(k), eq64(F(v, n, k), SC(v, k)), recF(v, n, k1), recS(v, k1)], eq64(F(v, n, k1), SC(v, k1)))
class Sort:
    """the specification functions of one sort: digits[p](value) in [0, KM), pass p orders by digit p"""
    def __init__(s, e, n, x, KM, digits, desc):
        s.n, s.x, s.KM, s.dig, s.desc, s.P = n, x, KM, digits, desc, len(digits)
        s._N, s._L, s._I, s._R = [None], [None], [None], [None]
        for p in range(1, s.P + 1):
            s._N.append(fn("N%d" % p, 2)); s._L.append(s._N[1] if p == 1 else fn("L%d" % p, 2)); s._I.append(fn("I%d" % p, 1)); s._R.append(fn("R%d" % p, 1))
            e.defs[s._N[p].get_id()] = lambda v, k, p=p: s.defcount(p, s.N, s.key, v, k, p > 1)
            if p > 1: e.defs[s._L[p].get_id()] = lambda v, k, p=p: s.defcount(p, s.L, s.K, v, k, False)
            e.defs[s._I[p].get_id()] = lambda y, p=p: s.defI(p, y)
    def N(s, p, v, k): return s._N[p](b64(v), b64(k))
    def L(s, p, v, k): return s._L[p](b64(v), b64(k))
    def I(s, p, y): return s._I[p](b64(y))
    def R(s, p, k): return s._R[p](b64(k))
    def key(s, p, i):
        d = s.dig[p - 1](s.x.at(i)); return sub(s.KM - 1, d) if s.desc else d
    def E(s, p, y):
        """position, in the vector, of the element at place y after p passes"""
        for q in range(p, 0, -1): y = s.I(q, y)
        return y
    def K(s, p, k): return s.key(p, s.E(p - 1, k))
    def defcount(s, p, F, key, v, k, total):
        # elements from n on do not count
        k0 = sub(k, 1); f = F(p, v, k)
        out = And(And(sle(0, f), sle(f, s.n)), Implies(sle(v, 0), eq64(f, 0)))
        if isc(k) or 0 < S.lin(k)[1] < LIM:      # at the numbers one more than another that occurs
            out = And(out, eq64(f, If(sle(k, 0), 0, add(F(p, v, k0), ind(And(slt(k0, s.n), slt(key(p, k0), v)))), 64)))
        return And(out, eq64(f, s.L(p, v, k))) if total and same_(k, s.n) else out
    def defI(s, p, y): return Implies(rng(y, 0, s.n), And(rng(s.I(p, y), 0, s.n), eq64(s.R(p, s.I(p, y)), y)))
    def defR(s, p, k):
        K = s.K(p, k); r = s.R(p, k)
        return Implies(rng(k, 0, s.n), And(eq64(r, add(s.L(p, K, s.n), sub(s.L(p, add(K, 1), k), s.L(p, K, k)))), And(rng(r, 0, s.n), eq64(s.I(p, r), k))))
    def pair(s, p, y1, y2):
        """y1 < y2 -> (digit, place before the pass) of the elements at y1 and y2 ascend"""
        i1, i2 = s.I(p, y1), s.I(p, y2); k1, k2 = s.K(p, i1), s.K(p, i2)
        return Implies(And(And(sle(0, y1), slt(y1, y2)), slt(y2, s.n)), Or(slt(k1, k2), And(eq64(k1, k2), slt(i1, i2))))
def same_(a, b): return (isc(a) and isc(b) and a == b) or (not isc(a) and not isc(b) and a.eq(b))
HOLD = {}
def arrays(e, sm, r):
    """candidate contents of the arrays a loop of the sort writes"""
    g = HOLD["g"]; KM = g.KM; out = []
    if isc(r.size):
        lo = {(KM + 1) * 8: 0, (KM + 1) * 8 + 16: 16}.get(r.size)
        if lo is None: return []
        n = g.n
        for p in range(1, g.P + 1):
            for nm, a in (("up", lambda j: j), ("down", lambda j: sub(KM, j))):
                N = lambda v, k, p=p: g.N(p, v, k); L = lambda v, k, p=p: g.L(p, v, k)
                out += [Template("tally %d %s" % (p, nm), lo, KM + 1, 8, lambda j, t, a=a, N=N: sub(N(a(j), t), N(sub(a(j), 1), t))),
                        Template("starts so far %d %s" % (p, nm), lo, KM + 1, 8, lambda j, t, a=a, N=N: If(sle(a(j), add(t, 1)), N(a(j), n), sub(N(a(j), n), N(sub(a(j), 1), n)), 64)),
                        Template("next place %d %s" % (p, nm), lo, KM + 1, 8, lambda j, t, a=a, N=N, L=L: add(N(a(j), n), sub(L(add(a(j), 1), t), L(a(j), t))))]
        return out
    if r.kind != "heap": return []
    return [Template("placed %d" % p, 16, g.n, 8, lambda y, t, p=p: g.E(p, y), lambda y, t, p=p: slt(g.I(p, y), t), lambda t, p=p: g.defR(p, t), 1) for p in range(1, g.P + 1)]
# ---- digits of the values
def fkey(v):
    """order of doubles: nan first, then by value, -0 equal to 0"""
    neg = S.icmp("uge", v, 1 << 63, 64); z = Or(eq64(v, 0), eq64(v, 1 << 63))
    return If(S.f_isnan(v), 0, If(z, 1 << 63, If(neg, S.binop("xor", v, mask(64), 64), S.binop("or", v, 1 << 63, 64), 64), 64), 64)
def rank(tp):
    """(KM, digits, full rank as an unsigned number of that many bits)"""
    w = W[tp]
    if w == 8: return 256, [lambda v: S.zext(v, 8, 64)], 8, lambda v: v
    if w == 16: f = lambda v: S.norm(S.binop("add", S.sext(v, 16, 64), 32768, 64)); return 65536, [f], 64, f
    full = fkey if tp == "F64" else lambda v: S.binop("xor", v, 1 << (w - 1), w)
    dig = lambda p: lambda v: S.zext(S.binop("and", S.binop("lshr", full(v), 16 * p, w) if p else full(v), 65535, w), w, 64)
    return 65536, [dig(p) for p in range(w // 16)], w, full
def values(B, tp, n):
    """mostly few different values, so that equal ones occur"""
    w = W[tp]; r = B.rng; q = r.random()
    sp = [0, 1, mask(w), 1 << (w - 1), (1 << (w - 1)) - 1, 0x80 & mask(w), 0x100 & mask(w), 0xffff & mask(w), 0x10000 & mask(w)]
    if tp == "F64": sp = [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, NAN, NAN | 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x4000000000000000, 0x7ff0000000000001]
    pool = [r.choice(sp) if r.random() < 0.5 else r.getrandbits(w) for _ in range(r.choice((1, 2, 3, 8)))]
    if w > 8 and r.random() < 0.5: pool += [v ^ 1 << r.randrange(w - (12 if tp == "F64" else 0)) for v in pool]      # a bit apart
    if tp == "B8": pool = [0, 1]
    return [r.choice(pool) if q < 0.8 else (r.getrandbits(1) if tp == "B8" else r.getrandbits(w)) for _ in range(n)]
def sort(f, tp, desc, only=None, first=False):
    KM, digits, w, full = rank(tp)
    def setup(B):
        if B.native:
            n = B.rng.choice((1, 2, 3, 5, 9, 40, 300)); vs = values(B, tp, n); x = B.vec("x", tp, n, at=lambda i: vs[i]); B.vs = vs; B.x = x; return [x]
        n = B.int("n", 64, 1 if "ray_sort_asc" == f or f == "ray_sort_desc" else 0, LIM); x = B.x = B.vec("x", tp, n); B.g = HOLD["g"] = Sort(B.e, n, x, KM, digits, desc)
        if first: lemmas(B.e, B.st)
        return [x]
    def post(V, r):
        x = V.B.x; n = x.n
        if V.native:
            V.check("type", V.typ(r) == CODE["I64"]); V.check("length", V.len(r) == n)
            k = [full(v) for v in V.B.vs]; o = sorted(range(n), key=lambda i: (-k[i] if desc else k[i], i))
            V.check("in order, equal ones by position", [V.el(r, i, 8) for i in range(n)] == o); return
        g = V.B.g
        V.check("type", eq(V.typ(r), CODE["I64"], 8)); V.check("length", eq64(V.len(r), n))
        V.forall("a position", 0, n, lambda y: V.check("a position", rng(V.el(r, y, 8), 0, n)))
        def two(y1):
            def one(y2):
                a, b = V.el(r, y1, 8), V.el(r, y2, 8); p1, p2 = y1, y2
                for p in range(g.P, 0, -1): V.st.assume(g.pair(p, p1, p2)); p1, p2 = g.I(p, p1), g.I(p, p2)
                ka, kb = full(x.at(a)), full(x.at(b))
                V.check("in order, equal ones by position", Or(S.icmp("ugt" if desc else "ult", ka, kb, w), And(eq(ka, kb, w), slt(a, b))))
            V.forall("later", add(y1, 1), n, one)
        V.forall("pair", 0, n, two)
    return Inst("%s(%s)" % (f, tp), f, setup, post, module="sort", opts=dict(arrays=[arrays], joinret=True, budget=800))
# ---- the callers: which order a type is sorted by, what they do with the positions
KEY = {"B8": "u8", "U8": "u8", "C8": "u8", "I16": "i16", "I32": "i32", "DATE": "i32", "TIME": "i32", "I64": "i64", "TIMESTAMP": "i64", "F64": "f64"}
DISTINCT, ASC, DESC = 1, 2, 4
def fresh(e, tp, n, arr, name, attrs=0):
    from contract import SymB
    return Region(name, add(16, norm(S.binop("mul", n, WIDTH[tp], 64))), Init({0: (1, 0xff), 1: (1, 0), 2: (1, CODE[tp]), 3: (1, attrs), 4: (4, 1), 8: (8, n)}, [(16, WIDTH[tp], arr, None)]), "heap", writable=True)
def order(desc, key):
    f = fn("order_%s_%s" % ("desc" if desc else "asc", key), 1)
    return lambda y: f(b64(y))
def c_sort(x, desc, key, empty=True):
    """the positions of x's elements by that order (verified above for the sorts of each key)"""
    def c(e, st, a, ins):
        e.check(st, isinstance(a[0], Ptr) and a[0].r is x.p.r and isc(a[0].o) and a[0].o == 0, "sort:the vector")
        e.check(st, WIDTH[x.tp] * 8 == {"u8": 8, "i16": 16, "i32": 32, "i64": 64, "f64": 64}[key.strip("-")], "sort:the width of the key")
        o = order(desc, key); u = z3.BitVec("u_order_%s" % key, 64); st.facts.append(Fact(u, 0, x.n, rng(o(u), 0, x.n)))
        e.nfresh += 1
        return [(st, Ptr(fresh(e, "I64", x.n, o, "order%d" % e.nfresh), 0))]
    return c
def c_reverse(e, st, a, ins):
    st.ghost["reversed"] = a[0]; return [(st, Ptr(Region("reversed", 16, Init({2: (1, 5)}), "heap"), 0))]
def c_pool_map(e, st, a, ins):
    """pool_map(n, f, ctx): f over ranges that partition [0, n) (C09); f does the same for a range as for its parts (below), so once for all"""
    f = a[1]; nm = f.r.name if isinstance(f, Ptr) and isinstance(f.r, FnPtr) else None
    if nm is None or not (nm.endswith("_worker")): raise Unsupported("pool_map of %s" % (nm,))
    g = e.w.func(nm, ins.fn.mod.name if hasattr(ins, "fn") else "sort")
    return [(s2, None) for s2, r in e.exec_func(g, [a[0], 0, a[2]], st)]
def keyorder(tp, a, b, desc):
    """keys of a and b are in order, equal allowed"""
    KM, d, w, full = rank(tp); return S.icmp("uge" if desc else "ule", full(a), full(b), w)
def marks(B, tp, x=None):
    """attributes of the vector, at most one of ascending and descending"""
    if B.native:
        k = rank(tp)[3]; m = B.rng.choice((0, 0, ASC, DESC)); vs = B.vs
        if m: vs.sort(key=k, reverse=m == DESC)
        return m | (DISTINCT if len({k(v) for v in vs}) == len(vs) and B.rng.random() < 0.8 else 0)
    a = B.int("attrs", 8); B.assume(S.icmp("ule", a, 7, 8)); B.assume(Not(And(has(a, ASC), has(a, DESC)))); return a
def has(a, m): return Not(eq(S.binop("and", a, m, 8), 0, 8))
def vector_of(B, tp, marked, writable=False):
    if B.native:
        n = B.rng.choice((0, 1, 2, 3, 5, 9, 40, 300)); B.vs = values(B, tp, n); a = B.a = marks(B, tp) if marked else 0; vs = B.vs
        B.x = B.vec("x", tp, n, at=lambda i: vs[i], writable=writable, attrs=a); B.vs = [B.x.at(i) for i in range(n)]; return B.x
    n = B.int("n", 64, 0, LIM); a = B.a = marks(B, tp) if marked else 0; B.x = B.vec("x", tp, n, writable=writable, attrs=a, rc=B.int("x.rc", 32, 1, 1 << 30) if marked else None); return B.x
def sorted_natively(V, desc, vs, tp):
    k = rank(tp)[3]; n = len(vs); return sorted(range(n), key=lambda i: (-k(vs[i]) if desc else k(vs[i]), i))
def positions(f, tp, desc, callee):
    """ray_sort_asc and the like: the positions in that order; a marked vector needs no sort"""
    key = KEY[tp]
    def setup(B):
        x = vector_of(B, tp, True)
        if not B.native:
            if callee: B.e.contracts[callee] = c_sort(x, desc, key)
            else:
                for d in (False, True):
                    for k in sorted(set(KEY.values())): B.e.contracts["ray_sort_%s_%s" % ("desc" if d else "asc", k)] = c_sort(x, d, k)
                B.e.contracts["pool_map"] = c_pool_map
        return [x]
    def post(V, r):
        x = V.B.x; n = x.n
        if V.native:
            V.check("type", V.typ(r) == CODE["I64"]); V.check("length", V.len(r) == n)
            V.check("in order, equal ones by position", [V.el(r, i, 8) for i in range(n)] == sorted_natively(V, desc, V.B.vs, tp)); return
        o = order(desc, key); a = V.B.a; KM, dg, w, full = rank(tp)
        V.check("type", eq(V.typ(r), CODE["I64"], 8)); V.check("length", eq64(V.len(r), n))
        if callee: V.forall("elem", 0, n, lambda y: V.check("positions in order", eq64(V.el(r, y, 8), o(y)))); return
        same, back = has(a, DESC if desc else ASC), And(has(a, ASC if desc else DESC), has(a, DISTINCT))
        V.case(Not(Or(same, back)), lambda: V.forall("elem", 0, n, lambda y: V.check("positions in order", eq64(V.el(r, y, 8), o(y)))))
        def marked(strict, wdesc):
            # what the mark says of the elements, at the two positions compared; then: the positions given are in the order asked for
            def two(y1):
                def one(y2):
                    p, q = V.el(r, y1, 8), V.el(r, y2, 8)
                    for i, j in ((p, q), (q, p)):
                        k1, k2 = full(x.at(i)), full(x.at(j)); V.st.assume(Implies(And(And(sle(0, i), slt(i, j)), slt(j, n)), S.icmp(("ugt" if strict else "uge") if wdesc else ("ult" if strict else "ule"), k1, k2, w)))
                    V.check("a position", rng(p, 0, n)); V.check("a position", rng(q, 0, n)); ka, kb = full(x.at(p)), full(x.at(q))
                    V.check("in order, equal ones by position", Or(S.icmp("ugt" if desc else "ult", ka, kb, w), And(eq(ka, kb, w), slt(p, q))))
                V.forall("later", add(y1, 1), n, one)
            V.forall("pair", 0, n, two)
        V.case(same, lambda: marked(False, desc)); V.case(And(Not(same), back), lambda: marked(True, not desc))
    return Inst("%s(%s%s)" % (f, tp, "" if callee else ", dispatch"), f, setup, post, module="order" if callee else "sort", nat=dict(runtime=True, cores=[1, 3]))
def ordered(f, tp, desc):
    """asc, desc: the elements in that order"""
    key = KEY[tp]; w = WIDTH[tp]
    def setup(B):
        x = vector_of(B, tp, True)
        if not B.native: B.e.contracts["ray_sort_desc" if desc else "ray_sort_asc"] = c_sort(x, desc, key); B.e.contracts["ray_reverse"] = c_reverse
        return [x]
    def post(V, r):
        x = V.B.x; n = x.n; a = V.B.a
        if V.native:
            vs = V.B.vs; V.check("type", V.typ(r) == CODE[tp]); V.check("length", V.len(r) == n); k = rank(tp)[3]
            V.check("in order", [k(V.el(r, i, w)) for i in range(n)] == [k(vs[i]) for i in sorted_natively(V, desc, vs, tp)])
            V.check("the same elements", sorted(V.el(r, i, w) for i in range(n)) == sorted(vs)); m = V.rd(r, 3, 1); V.check("marked", m & 7 & ~((DESC if desc else ASC) | a & DISTINCT) == 0); return
        o = order(desc, key); same, back = has(a, DESC if desc else ASC), has(a, ASC if desc else DESC)
        if V.is_ptr(r, x) is True or isinstance(r, Ptr) and r.r is x.p.r: V.check("already in order", And(V.is_ptr(r, x), same)); return
        if isinstance(r, Ptr) and r.r.name == "reversed": V.check("reversed", And(Not(same), back)); V.check("reversed", V.st.ghost["reversed"].r is x.p.r); return
        def plain():
            V.check("not marked before", Not(Or(same, back))); V.check("type", eq(V.typ(r), CODE[tp], 8)); V.check("length", eq64(V.len(r), n)); m = V.rd(r, 3, 1)
            V.check("marked", eq(m, S.binop("or", S.binop("and", a, DISTINCT, 8), DESC if desc else ASC, 8), 8))
            V.forall("elem", 0, n, lambda y: V.check("elements in order", eq(V.el(r, y, w), x.at(o(y)), 8 * w)))
        plain()
    return Inst("%s(%s)" % (f, tp), f, setup, post, module="order", nat=dict(runtime=True, cores=[1, 3]))
def worker(nm, val):
    """the same for a range as for its parts, and nothing else is written"""
    def setup(B):
        tot, ln, off = B.int("total", 64, 0, LIM), B.int("len", 64, 0, LIM), B.int("off", 64, 0, LIM); B.assume(sle(add(off, ln), tot))
        x = B.buf("out", tot, 8, writable=True); c = B.struct("ctx", 24, {16: (8, tot)} | ({8: (8, x.p)} if nm.startswith("rank") else {0: (8, x.p), 8: (8, tot)})); B.h = x, tot, ln, off; return [ln, off, c]
    def post(V, r):
        x, tot, ln, off = V.B.h
        def f(j):
            v = V.bel(x.p, j, 8); inside = rng(j, off, add(off, ln))
            V.case(inside, lambda: V.check("place", eq64(V.bel(x.p, j, 8), val(j, tot)))); V.case(Not(inside), lambda: V.check("nothing else", eq64(V.bel(x.p, j, 8), x.at(j))))
        V.forall("elem", 0, tot, f)
    return Inst(nm, nm, setup, post, module="order" if nm.startswith("rank") else "sort")
def reverse(tp):
    w = WIDTH[tp]
    def setup(B):
        return [vector_of(B, tp, True)]
    def post(V, r):
        x = V.B.x; n = x.n; a = V.B.a
        if V.native:
            V.check("type", V.typ(r) == CODE[tp]); V.check("length", V.len(r) == n); V.check("elements from last to first", [V.el(r, i, w) for i in range(n)] == V.B.vs[::-1]); m = V.rd(r, 3, 1); V.check("marks", not (m & ASC and not a & DESC) and not (m & DESC and not a & ASC) and not (m & DISTINCT and not a & DISTINCT)); return
        V.check("type", eq(V.typ(r), CODE[tp], 8)); V.check("length", eq64(V.len(r), n))
        V.forall("elem", 0, n, lambda y: V.check("elements from last to first", eq(V.el(r, y, w), x.at(sub(sub(n, 1), y)), 8 * w)))
        m = V.rd(r, 3, 1)
        V.check("ascending only if it was descending", Implies(has(m, ASC), has(a, DESC))); V.check("descending only if it was ascending", Implies(has(m, DESC), has(a, ASC))); V.check("distinct only if it was", Implies(has(m, DISTINCT), has(a, DISTINCT)))
    return Inst("ray_reverse(%s)" % tp, "ray_reverse", setup, post, module="compose", nat=dict(runtime=True))
def modified(tp):
    """cow_obj: what is about to be modified in place is not shared and not marked as sorted"""
    w = WIDTH[tp]
    def setup(B): return [vector_of(B, tp, True, True)]
    def post(V, r):
        x = V.B.x; n = x.n
        if V.native:
            V.check("type", V.typ(r) == CODE[tp]); V.check("length", V.len(r) == n); V.check("the same elements", [V.el(r, i, w) for i in range(n)] == V.B.vs)
            V.check("not marked", V.rd(r, 3, 1) & 7 == 0); return
        V.check("type", eq(V.typ(r), CODE[tp], 8)); V.check("length", eq64(V.len(r), n)); m = V.rd(r, 3, 1)
        V.check("not marked", Not(Or(has(m, ASC), Or(has(m, DESC), has(m, DISTINCT)))))
        V.forall("elem", 0, n, lambda y: V.check("the same elements", eq(V.el(r, y, w), x.at(y), 8 * w)))
        shared = Not(eq(x_rc(V), 1, 32)); own = isinstance(r, Ptr) and r.r is x.p.r
        if own: V.check("the only reference", Not(shared)); return
        V.check("the shared one keeps its mark", eq(V.rd(x.p, 3, 1), V.B.a, 8)); V.forall("old", 0, n, lambda y: V.check("the shared one keeps its elements", eq(V.el(x.p, y, w), x.at(y), 8 * w)))
    x_rc = lambda V: V.B.inputs["x.rc"]
    return Inst("cow_obj(%s)" % tp, "cow_obj", setup, post, module="rayforce", nat=dict(runtime=True))
def c_til(e, st, a, ins):
    """ray_til(n): 0 .. n-1"""
    n = e.read(st, a[0].r, add(a[0].o, 8), 8); e.check(st, And(eq(e.read(st, a[0].r, add(a[0].o, 2), 1), -CODE["I64"] & 255, 8), And(sle(0, n), slt(n, LIM + 1))), "til:a count"); e.nfresh += 1
    return [(st, Ptr(fresh(e, "I64", n, lambda y: S.bv(y, 64), "til%d" % e.nfresh, ASC | DISTINCT), 0))]
# ---- ranks: the place of each element in that order
_RANK = fn("place", 1)
def place(y): return _RANK(b64(y))
class Ranks: pass
_BUCKET = fn("bucket", 1)
def rank_values(g, xr, nb):
    """what is written for the element at a place: the place, or its bucket (the function's value at each place written is stated as it is written)"""
    g.form = (lambda k: norm(S.binop("sdiv", S.binop("mul", k, nb, 64), g.n, 64))) if xr else (lambda k: k)
    g.val = (lambda k: _BUCKET(b64(k))) if xr else g.form; g.xr = xr
def rank_defs(e, g):
    """place is the inverse of the order of a permutation"""
    o = g.order
    e.defs[_RANK.get_id()] = lambda y: Implies(rng(y, 0, g.n), And(rng(place(y), 0, g.n), eq64(o(place(y)), y)))
    g.at = lambda k: Implies(rng(k, 0, g.n), And(rng(o(k), 0, g.n), eq64(place(o(k)), k)))
def rank_arrays(e, sm, r):
    g = HOLD["rank"]
    if isc(r.size): return []
    return [Template("ranks", lo, g.n, 8, lambda y, t: g.val(place(y)), lambda y, t: And(sle(g.off, place(y)), slt(place(y), add(g.off, t))), lambda t: And(g.at(add(g.off, t)), eq64(g.val(add(g.off, t)), g.form(add(g.off, t)))), 1) for lo in (0, 16)]
def rank_worker(nm, xr):
    """the same for a range of places as for its parts, and nothing else is written"""
    def setup(B):
        if B.native:
            r = B.rng; n = r.choice((1, 2, 5, 40, 300)); off = r.randint(0, n); ln = r.randint(0, n - off); nb = r.choice((1, 2, 3, 50)); pm = list(range(n)); r.shuffle(pm); B.pm, B.nb, B.off, B.tot = pm, nb, off, n
            p = B.buf("perm", n, 8, at=lambda i: pm[i]); x = B.buf("out", n, 8, writable=True)
            B.h = x, ln; return [ln, off, B.struct("ctx", 32, {0: (8, p.p), 8: (8, x.p), 16: (8, nb if xr else n), 24: (8, n)})]
        g = HOLD["rank"] = Ranks(); g.n, ln, g.off = B.int("total", 64, 0, LIM), B.int("len", 64, 0, LIM), B.int("off", 64, 0, LIM); B.assume(sle(add(g.off, ln), g.n))
        g.order = order(False, "i64"); rank_defs(B.e, g); nb = B.int("buckets", 64, 1, 1 << 20)
        rank_values(g, xr, nb)
        u = z3.BitVec("u_perm", 64); B.st.facts.append(Fact(u, 0, g.n, rng(g.order(u), 0, g.n)))
        p = B.buf("perm", g.n, 8, at=g.order); x = B.buf("out", g.n, 8, writable=True)
        c = B.struct("ctx", 32, {0: (8, p.p), 8: (8, x.p), 16: (8, nb if xr else g.n), 24: (8, g.n)}); B.h = x, ln; return [ln, g.off, c]
    def post(V, r):
        x, ln = V.B.h
        if V.native:
            B = V.B
            for k, j in enumerate(B.pm): V.check("rank", V.bel(x.p, j, 8) == ((k * B.nb // B.tot if xr else k) if B.off <= k < B.off + ln else x.at(j)))
            return
        g = HOLD["rank"]
        def f(j):
            k = place(j); inside = rng(k, g.off, add(g.off, ln))
            V.case(inside, lambda: V.check("rank", eq64(V.bel(x.p, j, 8), g.val(k)))); V.case(Not(inside), lambda: V.check("nothing else", eq64(V.bel(x.p, j, 8), x.at(j))))
        V.forall("elem", 0, g.n, f)
    return Inst(nm, nm, setup, post, module="order", opts=dict(arrays=[rank_arrays]))
def ranks(f, tp):
    xr = f == "ray_xrank"; key = KEY[tp]
    def setup(B):
        x = vector_of(B, tp, True)
        nb = B.rng.choice((1, 2, 3, 7, 1000)) if B.native else B.int("buckets", 64, 1, 1 << 20)
        B.nb = nb
        if not B.native:
            g = HOLD["rank"] = Ranks(); g.n = x.n; g.off = 0; g.order = order(False, key); rank_defs(B.e, g)
            rank_values(g, xr, nb); B.e.contracts["ray_til"] = c_til
            B.e.contracts["ray_iasc"] = c_sort(x, False, key); B.e.contracts["pool_map"] = c_pool_map
        return [x, B.atom("nb", "I64", val=nb)] if xr else [x]
    def post(V, r):
        x = V.B.x; n = x.n
        if V.native:
            o = sorted_natively(V, False, V.B.vs, tp); want = [0] * n
            for k, i in enumerate(o): want[i] = k * V.B.nb // n if xr else k
            V.check("type", V.typ(r) == CODE["I64"]); V.check("length", V.len(r) == n); V.check("ranks", [V.el(r, i, 8) for i in range(n)] == want); return
        g = HOLD["rank"]; a = V.B.a
        V.check("type", eq(V.typ(r), CODE["I64"], 8)); V.check("length", eq64(V.len(r), n)); up = has(a, ASC); down = And(has(a, DESC), has(a, DISTINCT))
        # a vector so marked is ordered by (reversed) position: positions(...) above
        def f(y):
            v = V.el(r, y, 8)
            V.case(up, lambda: V.check("rank", eq64(v, g.form(y)))); V.case(And(Not(up), down), lambda: V.check("rank", eq64(v, g.form(sub(sub(n, 1), y)))))
            V.case(Not(Or(up, down)), lambda: V.check("rank", eq64(v, g.val(place(y)))))
        V.forall("elem", 0, n, f)
    return Inst("%s(%s)" % (f, tp), f, setup, post, module="order", nat=dict(runtime=True, cores=[1, 3]), opts=dict(arrays=[rank_arrays]))
def instances(tier="quick"):
    o = []
    for d in (False, True):
        nm = "desc" if d else "asc"
        for tp in ("U8", "I16", "I32", "I64", "F64"):
            I = sort("ray_sort_%s_%s" % (nm, tp.lower()), tp, d, first=tp == "U8" and not d); I.cost = {"F64": 100, "I64": 50, "I32": 20}.get(tp, 1); o.append(I)
        for tp in KEY: o += [positions("ray_sort_" + nm, tp, d, None), positions("ray_i" + nm, tp, d, "ray_sort_" + nm), ordered("ray_" + nm, tp, d)]
    o += [worker("iota_asc_worker", lambda j, t: j), worker("iota_desc_worker", lambda j, t: sub(sub(t, 1), j))]
    o += [rank_worker("rank_worker", False), rank_worker("xrank_worker", True), worker("rank_desc_worker", lambda j, t: sub(sub(t, 1), j))]
    for tp in KEY: o += [reverse(tp), modified(tp), ranks("ray_rank", tp), ranks("ray_xrank", tp)]
    return o
