"""C16: text to number.  A text is W blanks, an optional '-', D digits (the longest such runs; W and D are definitional extensions of the input).
G(k) is the value of the first k digits (G(0)=0, G(k+1)=10*G(k)+digit k) and ov(k) says that appending digit k exceeds MAX."""
from spec import *
import sym as S, z3
from sym import norm, conc
from contract import Inst, LIM
from engine import Ptr, Fact
BLANKS = (32, 9, 10, 13)
def blank(c): return Or(*[eq(sext(c, 8, 32), b, 32) for b in BLANKS]) if not isc(c) else c in BLANKS
def digit(c): return And(S.icmp("sge", sext(c, 8, 32), 48, 32), S.icmp("sle", sext(c, 8, 32), 57, 32))
def dval(c): return sext(sub(sext(c, 8, 32), 48, 32), 32, 64)
def step(g, c): return add(mul(g, 10, 64), dval(c), 64)
def over(g, c, mx): return Or(S.icmp("ugt", g, mx // 10, 64), And(eq(g, mx // 10, 64), S.icmp("sgt", sext(c, 8, 32), 48 + mx % 10, 32)))
def horner(cs):
    g = 0
    for c in cs: g = step(g, c)
    return g
class Text: pass
def run(B, name, lo, hi, pred, at):
    """the length of the longest run of characters satisfying pred at lo"""
    if B.native:
        k = 0
        while lo + k < hi and pred(at(lo + k)): k += 1
        return k
    n = B.int(name, 64, 0); u = z3.BitVec("u_" + name, 64)
    B.assume(sle(n, sub(hi, lo, 64), 64))
    B.st.facts.append(Fact(u, 0, n, pred(at(norm(add(lo, u, 64))))))
    B.assume(Or(eq(n, sub(hi, lo, 64), 64), Not(pred(at(norm(add(lo, n, 64)))))))
    return n
ALPHA = b"0123456789" * 3 + b" \t\n\r-+.eExabcdefABCDEF\x0b\x0c/:G\x00"
def text(B, name="src", alpha=None, fixed=None):
    t = Text()
    if B.native:
        alpha = alpha or ALPHA
        r = B.rng; k = r.random(); s = b""
        if k < .75:
            s = bytes(r.choice(BLANKS) for _ in range(r.choice((0, 0, 0, 1, 2)))) + r.choice((b"", b"", b"-"))
            d = r.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 30)); s += bytes(r.choice(b"0123456789") for _ in range(d)) if r.random() < .6 else (
                r.choice((b"2147483647", b"2147483648", b"9223372036854775807", b"9223372036854775808", b"18446744073709551615", b"18446744073709551616", b"92233720368547758070", b"9999999999999999", b"0000000000000000000001", b"00000000012")))
            if r.random() < .5: s += bytes(r.choice(ALPHA) for _ in range(r.choice((1, 1, 2, 9))))
        else: s = bytes(r.choice(alpha) for _ in range(r.randint(0, 24)))
        if fixed is not None: s = fixed
        t.n = len(s); t.b = B.buf(name, len(s), 1, at=lambda i: s[i] if 0 <= i < len(s) else 0); t.at = lambda i: s[i]; B.log.append((name, repr(s)))
    else:
        t.n = B.int("len", 64, 0, LIM); t.b = B.buf(name, t.n, 1); t.at = t.b.arr
    return t
def numeral(B, t, mx, neg):
    t.W = run(B, "W", 0, t.n, blank, t.at)
    if B.native:
        t.neg = t.W < t.n and t.at(t.W) == 45; B.assume(t.neg == neg); t.p = t.W + t.neg
        t.D = run(B, "D", t.p, t.n, digit, t.at); g = 0; t.K = t.D
        for k in range(t.D):
            if g * 10 + t.at(t.p + k) - 48 > mx: t.K = k; break
            g = g * 10 + t.at(t.p + k) - 48
        t.val = g; return
    m = And(slt(t.W, t.n, 64), eq(sext(t.at(t.W), 8, 32), 45, 32)); B.assume(m if neg else Not(m)); t.neg = neg; t.p = norm(add(t.W, 1 if neg else 0, 64))
    t.D = run(B, "D", t.p, t.n, digit, t.at)
    GF = z3.Function("G", z3.BitVecSort(64), z3.BitVecSort(64)); t.G = G = lambda k: GF(S.bv(k, 64)) if isc(k) else GF(k)
    ch = lambda k: t.at(norm(add(t.p, k, 64)))
    u = z3.BitVec("u_G", 64)
    B.assume(eq(G(0), 0, 64))
    B.st.facts.append(Fact(u, 0, t.D, eq(G(norm(add(u, 1, 64))), step(G(u), ch(u)), 64)))
    t.K = B.int("K", 64, 0, t.D); u2 = z3.BitVec("u_K", 64)
    B.st.facts.append(Fact(u2, 0, t.K, Not(over(G(u2), ch(u2), mx)))); B.assume(Or(eq(t.K, t.D, 64), over(G(t.K), ch(t.K), mx)))
    # P(n,k): the value of n digits from the k-th on (definition: horner).  What follows about whole chunks is proved one digit after the other in
    # a scratch state and only the conclusions are kept.
    t.P = lambda n, k: PF(S.bv(n, 64), S.bv(k, 64)); t.ch = ch
    keep = B.st; B.st = sc = keep.copy(); out = []
    top = 16 if mx > 1 << 40 else 8
    def lemma(nm, c): B.e.check(sc, c, "digits:" + nm); sc.assume(c)
    for k in range(top):
        h = slt(k, t.D, 64)
        sc.assume(Implies(h, And(digit(ch(k)), eq(G(k + 1), step(G(k), ch(k)), 64), Or(slt(k, t.K, 64), eq(t.K, k, 64), slt(t.K, k, 64)), Implies(eq(t.K, k, 64), over(G(k), ch(k), mx)))))
        lemma("value below 10^%d" % (k + 1), Implies(h, S.icmp("ult", G(k + 1), 10 ** (k + 1), 64)))
        lemma("no overflow in the first %d" % (k + 1), Implies(h, slt(k, t.K, 64)))
    for n, k in ((4, 0), (8, 0), (8, 8)):
        if n + k > top: continue
        sc.assume(eq(t.P(n, k), horner([ch(k + i) for i in range(n)]), 64))
        cs = [eq(G(n + k), add(mul(G(k), 10 ** n, 64), t.P(n, k), 64), 64), sle(n + k, t.K, 64), S.icmp("ult", G(n + k), 10 ** (n + k), 64), S.icmp("ult", t.P(n, k), 10 ** n, 64)]
        B.st = s2 = sc.copy(); s2.assume(sle(n + k, t.D, 64))
        for i in range(n + k): s2.assume(eq(G(i + 1), step(G(i), ch(i)), 64)); s2.assume(digit(ch(i)))
        for j, c in enumerate(cs): B.e.check(s2, c, "digits:%d digits after %d.%d" % (n, k, j))
        B.st = sc; c = Implies(sle(n + k, t.D, 64), And(*cs)); sc.assume(c); out.append(c)
    B.st = keep
    for c in out: B.assume(c)
    t.val = G(t.D)
def ends(hold):
    """where a loop over the text may end: after the blanks, the digits, the digits that fit"""
    def f(e, sm):
        t = hold.get("t"); out = []
        if t is None: return out
        ks = []
        for v in sm.vars:
            if v.isptr: k = norm(sub(v.init.o, t.p, 64)) if v.init.r is t.b.p.r else None
            elif v.w == 64: k = v.init; k = k if isc(k) else norm(sub(k, t.p, 64))
            else: k = None
            if k is not None and isc(k) and k not in ks and k <= 16: ks.append(k)
        for k in sorted(ks): out += [norm(sub(t.D, k, 64)), norm(sub(t.K, k, 64))]
        return out + [t.W]
    return f
def inv_value(hold):
    """loop invariant: an accumulator is the value of the digits read so far"""
    def f(e, sm, tt):
        t = hold.get("t"); out = []
        if t is None: return out
        pos = [sm.cur(v, tt) for v in sm.vars if not v.isptr and v.w == 64 and v.kind == "affine"] + [norm(sub(sm.cur(v, tt).o, t.p, 64)) for v in sm.vars if v.isptr and v.init.r is t.b.p.r]
        for v in sm.vars:
            if v.kind == "general" and not v.isptr and v.w in (32, 64):
                c = sm.cur(v, tt)
                for q in pos:
                    q0 = z3.simplify(z3.substitute(q, (tt, z3.BitVecVal(0, 64)))) if not isc(q) else q
                    for b in (0, t.p):
                        if not isc(norm(sub(conc(q0), b, 64))): continue
                        out.append(eq(zext(c, 32, 64) if v.w == 32 else c, t.G(norm(sub(q, b, 64))), 64))
        return out
    return f
def intp(fn, bits, mx, neg):
    hold = {}
    def setup(B):
        t = text(B); numeral(B, t, mx, neg); hold["t"] = None if B.native else t
        t.old = B.int("old", bits); t.dst = B.struct("dst", bits // 8, {0: (bits // 8, t.old)})
        B.h = t; return [t.b, t.n, t.dst]
    def post(V, r):
        t = V.B.h; v = V.rd(t.dst.p, 0, bits // 8)
        good = And(S.icmp("sgt", t.D, 0, 64), eq(t.K, t.D, 64))
        val = If(t.neg, sub(0, t.val, 64), t.val, 64); val = S.trunc(val, 64, bits) if bits < 64 else val
        def g():
            V.check("consumes the numeral", eq(r, add(t.p, t.D, 64), 64)); V.check("value", eq(v, val, bits))
        def b():
            V.check("consumes nothing", eq(r, 0, 64)); V.check("stores nothing", eq(v, t.old, bits))
        V.case(good, g); V.case(Not(good), b)
    return Inst("%s(%s)" % (fn, "minus" if neg else "plain"), fn, setup, post, module="string", contracts=CT(hold), opts=dict(selfork=True, quickfeas=True, nogen=True, budget=700, invs=[inv_value(hold)], ends=[ends(hold)]))
def swar(n):
    """is_n_digits, parse_n_digits on exactly n bytes"""
    def setup(B):
        t = Text(); t.b = B.buf("s", n, 1); t.at = t.b.at if B.native else t.b.arr; B.h = t; return [t.b]
    def setup2(B):
        r = setup(B)
        for i in range(n): B.assume(digit(B.h.at(i)))
        return r
    def post(V, r):
        ok = And(*[digit(V.B.h.at(i)) for i in range(n)])
        V.check("digits", eq(r, If(ok, 1, 0, 8), 8))
    def post2(V, r):
        g = 0
        for i in range(n): g = step(g, V.B.h.at(i))
        V.check("value", eq(zext(r, 32, 64) if n == 4 else r, g, 64))
    return [Inst("is_%d_digits" % n, "is_%d_digits" % n, setup, post, module="string", opts=dict(unroll={"is_%d_digits" % n: n + 1})), Inst("parse_%d_digits" % n, "parse_%d_digits" % n, setup2, post2, module="string")]
def chunk(e, st, a, n, t):
    """the argument is the text's digits from the k-th on: k"""
    e.inbounds(st, a[0], n, "%d digits:argument" % n)
    k = norm(sub(a[0].o, t.p, 64))
    return k if a[0].r is t.b.p.r and isc(k) else None
def c_is(n, hold):
    def c(e, st, a, ins):
        t = hold["t"]; k = chunk(e, st, a, n, t)
        ok = And(*[digit(e.read(st, a[0].r, norm(add(a[0].o, i, 64)), 1)) for i in range(n)])
        if k is not None:
            b = sle(k + n, t.D, 64)
            e.check(st, sle(k, t.D, 64), "is_%d_digits:inside the numeral" % n)
            for i in range(n): e.check(st, Implies(eq(t.D, k + i, 64), Not(digit(t.ch(k + i)))), "is_%d_digits:stops at %d" % (n, i))
            for i in range(n): e.check(st, Implies(slt(k + i, t.D, 64), digit(t.ch(k + i))), "is_%d_digits:goes on at %d" % (n, i))
            return [(st, If(b, 1, 0, 8))]
        return [(st, If(ok, 1, 0, 8))]
    return c
def c_parse(n, hold):
    def c(e, st, a, ins):
        t = hold["t"]; k = chunk(e, st, a, n, t)
        if k is not None:
            e.check(st, sle(k + n, t.D, 64), "parse_%d_digits:all digits" % n); g = t.P(n, k)
        else:
            bs = [e.read(st, a[0].r, norm(add(a[0].o, i, 64)), 1) for i in range(n)]
            e.check(st, And(*[digit(b) for b in bs]), "parse_%d_digits:all digits" % n); g = horner(bs)
        return [(st, S.trunc(g, 64, 32) if n == 4 else g)]
    return c
def CT(hold): return {"is_8_digits": c_is(8, hold), "is_4_digits": c_is(4, hold), "parse_8_digits": c_parse(8, hold), "parse_4_digits": c_parse(4, hold)}
PF = z3.Function("P", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
def hexd(c):
    return Or(And(S.icmp("uge", c, 48, 8), S.icmp("ule", c, 57, 8)), And(S.icmp("uge", c, 97, 8), S.icmp("ule", c, 102, 8)), And(S.icmp("uge", c, 65, 8), S.icmp("ule", c, 70, 8)))
def hexv(c): return If(S.icmp("ule", c, 57, 8), sub(c, 48, 8), If(S.icmp("uge", c, 97, 8), sub(c, 87, 8), sub(c, 55, 8), 8), 8)
def hexp():
    def setup(B):
        t = text(B, alpha=ALPHA + b"0123456789abcdefABCDEFgG@`") if B.native else text(B)
        t.old = B.int("old", 8); t.dst = B.struct("dst", 1, {0: (1, t.old)})
        B.h = t; return [t.b, t.n, t.dst]
    def post(V, r):
        t = V.B.h; v = V.rd(t.dst.p, 0, 1); long = S.icmp("sge", t.n, 2, 64)
        def short(): V.check("consumes nothing", eq(r, 0, 64)); V.check("stores nothing", eq(v, t.old, 8))
        def enough():
            a, b = t.at(0), t.at(1); ok = And(hexd(a), hexd(b))
            V.case(ok, lambda: (V.check("consumes two", eq(r, 2, 64)), V.check("value", eq(v, add(mul(hexv(a), 16, 8), hexv(b), 8), 8)))[0]); V.case(Not(ok), short)
        V.case(Not(long), short); V.case(long, enough)
    return Inst("u8_from_str", "u8_from_str", setup, post, module="string", opts=dict(unroll={"u8_from_str": 3}))
WORDS = ((b"true", b"True", b"TRUE"), (b"false", b"False", b"FALSE"))
def boolp():
    def setup(B):
        if B.native:
            r = B.rng; w = r.choice(WORDS[0] + WORDS[1] + (b"", b"tru", b"fals", b"tRue", b"FALSe")); w = w[:r.randint(0, 6)] + r.choice((b"", b"", b"x", b"e")); t = text(B, fixed=w)
        else: t = text(B)
        t.old = B.int("old", 8); t.dst = B.struct("dst", 1, {0: (1, t.old)})
        B.h = t; return [t.b, t.n, t.dst]
    def post(V, r):
        t = V.B.h; v = V.rd(t.dst.p, 0, 1)
        def isw(ws, n):
            if isc(t.n) and t.n < n: return False
            return And(S.icmp("sge", t.n, n, 64), Or(*[And(*[eq(t.at(i), w[i], 8) for i in range(n)]) for w in ws]))
        tr, fa = isw(WORDS[0], 4), isw(WORDS[1], 5)
        V.case(tr, lambda: (V.check("consumes true", eq(r, 4, 64)), V.check("true", eq(v, 1, 8)))[0])
        V.case(fa, lambda: (V.check("consumes false", eq(r, 5, 64)), V.check("false", eq(v, 0, 8)))[0])
        V.case(Not(Or(tr, fa)), lambda: (V.check("consumes nothing", eq(r, 0, 64)), V.check("stores nothing", eq(v, t.old, 8)))[0])
    return Inst("b8_from_str", "b8_from_str", setup, post, module="string", contracts={"strncmp": c_strncmp}, opts=dict(quickfeas=True))
def c_strncmp(e, st, a, ins):
    """strncmp(p, literal, n), n within the literal: zero iff the n characters agree; reads at most n characters of both"""
    p, q, n = a
    e.check(st, And(isc(n)), "strncmp:constant length")
    for x in (p, q): e.inbounds(st, x, n, "strncmp:argument")
    A = [e.read(st, p.r, norm(add(p.o, i, 64)), 1) for i in range(n)]; Q = [e.read(st, q.r, norm(add(q.o, i, 64)), 1) for i in range(n)]
    e.check(st, And(*[S.icmp("ne", c, 0, 8) for c in Q]), "strncmp:literal")
    r = e.fresh("strncmp", 32); c = And(*[eq(x, y, 8) for x, y in zip(A, Q)])
    st.assume(And(Implies(c, eq(r, 0, 32)), Implies(Not(c), S.icmp("ne", r, 0, 32)))); return [(st, r)]
DASH = (8, 13, 18, 23)
HEXPOS = [i for i in range(36) if i not in DASH]
def guidp():
    def setup(B):
        if B.native:
            r = B.rng; s = bytearray(r.choice(b"0123456789abcdefABCDEF") if i not in DASH else 45 for i in range(36))
            for _ in range(r.choice((0, 0, 1, 1, 2))): s[r.randint(0, 35)] = r.choice(b"-0aFgG/:@`")
            if r.random() < .2: s = s[:r.randint(0, 36)]
            t = text(B, fixed=bytes(s))
        else: t = text(B)
        t.dst = B.buf("dst", 16, 1, writable=True); B.h = t; return [t.b, t.n, t.dst]
    def post(V, r):
        t = V.B.h; n36 = eq(t.n, 36, 64)
        def chk():
            ok = And(*[eq(t.at(i), 45, 8) if i in DASH else hexd(t.at(i)) for i in range(36)])
            def good():
                V.check("accepted", eq(r, 0, 64))
                for k in range(16): V.check("byte", eq(V.bel(t.dst.p, k, 1), add(mul(hexv(t.at(HEXPOS[2 * k])), 16, 8), hexv(t.at(HEXPOS[2 * k + 1])), 8), 8))
            V.case(ok, good); V.case(Not(ok), lambda: V.check("rejected", eq(r, mask(64), 64)))
        V.case(n36, chk); V.case(Not(n36), lambda: V.check("rejected", eq(r, mask(64), 64)))
    return Inst("guid_from_str", "guid_from_str", setup, post, module="string", opts=dict(unroll={"guid_from_str": 37}, merge=True, quickfeas=True, budget=400))
def instances(tier="quick"):
    return swar(8) + swar(4) + [intp("i64_from_str", 64, (1 << 63) - 1, g) for g in (False, True)] + [intp("i32_from_str", 32, (1 << 31) - 1, g) for g in (False, True)] + [hexp(), boolp(), guidp()]
