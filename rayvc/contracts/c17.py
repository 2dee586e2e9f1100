"""C17: str_match(text, pattern) is glob matching: '*' any run, '?' one character, [..] and [^..] one character in / not in the set, everything else itself."""
from spec import *
import sym as S, itertools
from sym import *
from engine import Ptr, Fact
from contract import Inst, CODE, LIM
B64 = z3.BitVecSort(64); BOOL = z3.BoolSort()
sle = lambda a, b: S.icmp("sle", a, b, 64)
slt = lambda a, b: S.icmp("slt", a, b, 64)
add = lambda a, b: norm(S.binop("add", a, b, 64))
sub = lambda a, b: norm(S.binop("sub", a, b, 64))
STAR, ANY, OPEN, CLOSE, NOT = 42, 63, 91, 93, 94
b64 = lambda x: S.bv(x, 64)
class Spec:
    """the text s[0..n), the pattern p[0..m) and the predicates over them"""
    def __init__(s, e, n, m, certificate):
        s.n, s.m, s.cert = n, m, certificate
        s._s = z3.Function("text", B64, z3.BitVecSort(8)); s._p = z3.Function("pat", B64, z3.BitVecSort(8))
        s._E = z3.Function("setend", B64, B64); s._M = z3.Function("inset", B64, B64, BOOL); s._G = z3.Function("matches", B64, B64, BOOL)
        s._c = z3.Function("cert", B64, B64); s._bd = z3.Function("bound", B64, BOOL)
        e.defs[s._E.get_id()] = s.defE; e.defs[s._M.get_id()] = s.defM
        if certificate: e.defs[s._bd.get_id()] = s.defbd
        else: e.defs[s._G.get_id()] = s.defG
    def t(s, i): return s._s(b64(i))
    def p(s, j): return s._p(b64(j))
    def E(s, b): return s._E(b64(b))
    def M(s, i, k): return s._M(b64(i), b64(k))
    def G(s, i, j): return s._G(b64(i), b64(j))
    def c(s, j): return s._c(b64(j))
    def bd(s, j): return s._bd(b64(j))
    def isp(s, j, ch): return And(slt(j, s.m), eq(s.p(j), ch, 8))
    # where the set whose members start at b ends; whether t[i] is one of its members from k on
    def defE(s, b): return eq(s.E(b), If(Or(S.icmp("sge", b, s.m, 64), eq(s.p(b), CLOSE, 8)), b, s.E(add(b, 1)), 64), 64)
    def defM(s, i, k): return iff(s.M(i, k), And(slt(k, s.m), And(Not(eq(s.p(k), CLOSE, 8)), Or(eq(s.p(k), s.t(i), 8), s.M(i, add(k, 1))))))
    def first(s, j): return If(s.isp(add(j, 1), NOT), add(j, 2), add(j, 1), 64)
    def inset(s, i, j):
        """t[i] is accepted by the set opened at j"""
        neg = s.isp(add(j, 1), NOT); b = s.first(j)
        return And(slt(add(j, 1), s.m), And(slt(s.E(b), s.m), Not(iff(s.M(i, b), neg))))
    def one(s, i, j):
        """t[i] is accepted by the item at j (not a star), and where the next item starts"""
        ch = s.p(j); st = eq(ch, OPEN, 8)
        return If1(eq(ch, ANY, 8), True, If1(st, s.inset(i, j), eq(ch, s.t(i), 8))), If(st, add(s.E(s.first(j)), 1), add(j, 1), 64)
    def defG(s, i, j):
        """t[i..n) matches p[j..m)"""
        ch = s.p(j); ok, nx = s.one(i, j); j1 = add(j, 1); i1 = add(i, 1)
        star = If1(s.isp(j1, STAR), s.G(i, j1), Or(s.G(i, j1), And(slt(i, s.n), s.G(i1, j))))
        d = iff(s.G(i, j), If1(S.icmp("sge", j, s.m, 64), eq(i, s.n, 64), If1(eq(ch, STAR, 8), star, And(slt(i, s.n), And(ok, s.G(i1, nx))))))
        # proved in setup
        inr = And(S.icmp("sge", i, 0, 64), And(S.icmp("sge", j, 0, 64), s.isp(j, STAR)))
        l1 = Implies(And(inr, slt(i, s.n)), Implies(s.G(i1, j), s.G(i, j)))
        l2 = Implies(And(inr, And(sle(i, s.n), eq(j1, s.m, 64))), s.G(i, j))
        return And(d, And(l1, l2))
    def lemmas(s, e, st):
        """the two consequences of the definition used above, by induction (on the length of the run of stars; on the characters left)"""
        i, j = z3.BitVec("li", 64), z3.BitVec("lj", 64); full = s.defG
        def plain(i, j):
            ch = s.p(j); ok, nx = s.one(i, j); j1 = add(j, 1); i1 = add(i, 1)
            star = If1(s.isp(j1, STAR), s.G(i, j1), Or(s.G(i, j1), And(slt(i, s.n), s.G(i1, j))))
            return iff(s.G(i, j), If1(S.icmp("sge", j, s.m, 64), eq(i, s.n, 64), If1(eq(ch, STAR, 8), star, And(slt(i, s.n), And(ok, s.G(i1, nx))))))
        e.defs[s._G.get_id()] = plain
        i1, j1 = add(i, 1), add(j, 1); st2 = st.copy()
        for a in (S.icmp("sge", i, 0, 64), S.icmp("sge", j, 0, 64), s.isp(j, STAR), slt(i, s.n)): st2.assume(a)
        st2.assume(Implies(s.isp(j1, STAR), Implies(s.G(i1, j1), s.G(i, j1))))
        e.check(st2, Implies(s.G(i1, j), s.G(i, j)), "lemma:a star takes one more")
        st3 = st.copy()
        for a in (S.icmp("sge", i, 0, 64), S.icmp("sge", j, 0, 64), s.isp(j, STAR), sle(i, s.n), eq(j1, s.m, 64)): st3.assume(a)
        st3.assume(Implies(slt(i, s.n), s.G(i1, j)))
        e.check(st3, s.G(i, j), "lemma:a last star takes the rest")
        e.defs[s._G.get_id()] = full
    def defbd(s, x):
        """a certificate of a match: item at x starts at text position c(x); bd: an item starts here"""
        x1 = add(x, 1); ch = s.p(x); cx = s.c(x); ok, nx = s.one(cx, x)
        inr = And(S.icmp("sge", cx, 0, 64), sle(cx, s.n))
        star = And(s.bd(x1), And(sle(cx, s.c(x1)), And(sle(s.c(x1), s.n), Implies(s.isp(x1, STAR), eq(s.c(add(x, 2)), s.c(x1), 64)))))
        step = And(s.bd(nx), And(eq(s.c(nx), add(cx, 1), 64), And(slt(cx, s.n), ok)))
        return Implies(s.bd(x), And(inr, And(sle(x, s.m), If1(S.icmp("sge", x, s.m, 64), eq(cx, s.n, 64), If1(eq(ch, STAR, 8), star, step)))))
def iff(a, b): return Not(S.binop("xor", a, b, 1))
def If1(c, a, b):
    if isc(c): return a if c else b
    return Or(And(c, a), And(Not(c), b))

# ---- invariants; the variables are found by their initial values, not by name
def isnull64(v): return isc(v) and v == 1 << 63
def regs(sm):
    out = {}
    for v in sm.regs_in.values():
        if not isc(v) and not isinstance(v, (Ptr, tuple)) and z3.is_bv(v) and v.size() == 64: out[v.get_id()] = v
    return list(out.values())
def accs(sm):
    """the values the enclosing loop's variables have in this iteration"""
    return [v for v in regs(sm) if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.num_args()]
def invariants(hold):
    def f(e, sm, t):
        g = hold["spec"]; n, m = g.n, g.m; out = []; cur = lambda v: sm.cur(v, t)
        v64 = [v for v in sm.vars if not v.isptr and v.w == 64 and v.kind != "inv"]
        Ls = [v for v in v64 if isnull64(v.init)]
        zero = [v for v in v64 if isc(v.init) and v.init == 0]
        kept = {c.get_id() for c in sm.inv}
        has = lambda c: c.get_id() in kept
        for lv in Ls:
            L = cur(lv); nol = eq(L, 1 << 63, 64); lin = And(S.icmp("sge", L, 0, 64), And(slt(L, m), eq(g.p(L), STAR, 8)))
            if sm.stage == 0:
                out.append(Or(nol, lin))
                for v in zero:
                    out += [S.icmp("sge", cur(v), 0, 64), sle(cur(v), n), sle(cur(v), m), Or(nol, slt(L, cur(v)))]
                    out += [sle(cur(x), cur(v)) for x in zero if x is not v]
                continue
            # which is the text position, which the pattern position, which the text position at the last star: as their ranges show
            for vi, vj, vs in itertools.permutations(zero, 3):
                I, J, Sv = cur(vi), cur(vj), cur(vs)
                if not (has(sle(I, n)) and has(sle(Sv, I)) and has(sle(J, m)) and has(Or(nol, slt(L, J)))): continue
                if g.cert: out += [And(g.bd(J), sle(I, g.c(J))), Implies(nol, eq(I, g.c(J), 64)), Implies(Not(nol), And(g.bd(L), sle(sub(g.c(J), I), sub(g.c(add(L, 1)), Sv))))]
                else: out += [Implies(g.G(I, J), g.G(0, 0)), Implies(Not(nol), Implies(g.G(Sv, L), g.G(0, 0)))]
        if not Ls and sm.stage == 0 and (len(e.sums) < 2 or getattr(e.sums[-2], "holding", False)): out += [f(cur(v)) for v in v64 if v.kind == "affine" for f in (lambda x: sle(x, m), lambda x: sle(x, n))]
        if not Ls and sm.stage and (len(e.sums) < 2 or getattr(e.sums[-2], "stage", 0)):
            outer = accs(sm); n0 = [v for v in v64 if v.kind == "affine" and isc(v.c) and v.c == 1]
            i8 = [v for v in sm.vars if not v.isptr and v.w in (1, 8) and v.kind == "general"]
            for v in n0:
                x = cur(v); x1 = sub(x, 1)
                for mt in i8:          # members of a set
                    mm = Not(eq(cur(mt), 0, mt.w)) if mt.w > 1 else cur(mt)
                    for i in outer: out.append(iff(g.M(i, v.init), Or(mm, g.M(i, x))))
                    out.append(eq(g.E(v.init), g.E(x), 64))
                if i8: continue
                # a run of stars: the last one seen stands for all
                pos = S.icmp("sgt", t, 0, 64)
                for i in outer + [n]:
                    if not g.cert:
                        out.append(Implies(pos, Implies(g.G(i, x1), g.G(0, 0)))); out.append(Implies(g.G(i, x), g.G(0, 0)))
                if g.cert:
                    out.append(Implies(pos, And(g.bd(x1), And(g.bd(x), eq(g.c(x), g.c(add(v.init, 1)), 64)))))
                    out.append(And(g.bd(x), eq(g.c(x), n, 64)))
                # looking for the character after the star
                for y in [v for v in regs(sm) if v.get_id() not in {o.get_id() for o in outer}]:
                    if g.cert: out.append(And(g.bd(y), sle(x, g.c(y))))
                    else: out.append(Implies(g.G(x, sub(y, 1)), g.G(0, 0)))
        return out
    f.affine = f.nested = True; f.stages = 2
    return f
HOLD = {}
def glob(s, p):
    """reference: dynamic programming over the definition"""
    n, m = len(s), len(p); memo = {}
    def G(i, j):
        k = (i, j)
        if k in memo: return memo[k]
        if j >= m: r = i == n
        elif p[j] == STAR: r = any(G(x, j + 1) for x in range(i, n + 1))
        elif i >= n: r = False
        elif p[j] == OPEN:
            neg = j + 1 < m and p[j + 1] == NOT; b = j + (2 if neg else 1); x = b
            while x < m and p[x] != CLOSE: x += 1
            r = j + 1 < m and x < m and ((s[i] in p[b:x]) != neg) and G(i + 1, x + 1)
        else: r = (p[j] == ANY or p[j] == s[i]) and G(i + 1, j + 1)
        memo[k] = r; return r
    return G(0, 0)
def texts(B):
    r = B.rng; k = r.choice((2, 3)); al = b"ab]c"[:k]
    s = bytes(r.choice(al) for _ in range(r.choice((0, 1, 2, 3, 5, 8, 14))))
    if r.random() < 0.5: p = bytes(r.choice(b"ab*?[]^" if r.random() < 0.6 else b"ab*") for _ in range(r.choice((0, 1, 2, 3, 5, 7))))
    else:      # a pattern made from the text
        p = b""; i = 0
        while i < len(s):
            q = r.random(); c = s[i:i + 1]
            if q < 0.25: p += b"*" * r.choice((1, 1, 2)); i += r.choice((0, 1, 2, 4))
            elif q < 0.35: p += b"?"; i += 1
            elif q < 0.5 and c not in b"]^": p += b"[" + r.choice((c, b"b" + c, c + b"a", b"^c", b"^")) + b"]"; i += 1
            else: p += c; i += 1
        if r.random() < 0.3: p += r.choice((b"*", b"a", b"**", b"["))
    return s, p
def pair(B):
    """text and pattern of any length"""
    if B.native:
        s, p = texts(B); n, m = len(s), len(p); B.s, B.p = s, p
        a = B.buf("text", n, 1, at=lambda i: s[i]); b = B.buf("pat", m, 1, at=lambda i: p[i])
    else:
        n, m = B.int("n", 64, 0, LIM), B.int("m", 64, 0, LIM)
        a = B.buf("text", n, 1, at=lambda i: B.sp.t(i)); b = B.buf("pat", m, 1, at=lambda i: B.sp.p(i))
    return a, n, b, m
def match(cert):
    def setup(B):
        a, n, b, m = pair(B)
        if not B.native:
            g = B.sp = HOLD["spec"] = Spec(B.e, n, m, cert)
            if cert: B.assume(And(g.bd(0), eq(g.c(0), 0, 64)))
            else: g.lemmas(B.e, B.st)
        return [a, n, b, m]
    def post(V, r):
        if V.native: V.check("result", (r & 255) == (1 if glob(V.B.s, V.B.p) else 0)); return
        g = V.B.sp; yes = Not(eq(r, 0, 8))
        V.check("truth value", Or(eq(r, 0, 8), eq(r, 1, 8)))
        if cert: V.check("every match is found", yes)
        else: V.check("only matches are reported", Implies(yes, g.G(0, 0)))
    return Inst("str_match(%s)" % ("complete" if cert else "sound"), "str_match", setup, post, module="string", opts=dict(invs=[invariants(HOLD)], nogen=True, lean=True, budget=800, scale=6))
# ---- like: one match per text
MATCH = z3.Function("MATCH", B64, B64, BOOL)
OB = lambda n, p: z3.Function("ob!%d" % n, B64, z3.BitVecSort(8 * n))(S.bv(norm(p), 64))
def c_match(e, st, a, ins):
    """str_match(text, n, pattern, m): decided by the contracts above"""
    e.check(st, And(isinstance(a[2], Ptr) and a[2].r is HOLD["y"].p.r and a[2].o == 16, eq(a[3], HOLD["y"].n, 64)), "str_match:pattern")
    if isinstance(a[0], Ptr) and a[0].r is not None:
        e.check(st, a[0].r is HOLD["x"].p.r and eq(a[0].o, 16, 64), "str_match:text"); b = z3.BitVecVal(1, 64)
    else: b = S.bv(a[0].o, 64)
    return [(st, If(MATCH(b, S.bv(a[1], 64)), 1, 0, 8))]
def cstr(B, name, bs): return B.vec(name, "C8", len(bs), at=lambda i: bs[i])
def like(kind):
    def setup(B):
        if B.native:
            s, p = texts(B); B.p = p; y = cstr(B, "pattern", p)
            if kind == "C8": B.ss = [s]; x = cstr(B, "text", s)
            else:
                B.ss = [s if i == 0 else texts(B)[0] for i in range(B.rng.choice((0, 1, 2, 3, 6)))]; bad = B.rng.random() < 0.15 and B.ss
                os = [cstr(B, "text%d" % i, q) for i, q in enumerate(B.ss)]
                if bad: j = B.rng.randrange(len(os)); os[j] = B.vec("other", "I64", 2); B.ss[j] = None
                x = B.vec("texts", "LIST", len(os), at=lambda i: os[i].p)
        else:
            x = B.vec("x", kind, B.int("n", 64, 0, LIM)); y = B.vec("y", "C8", B.int("m", 64, 0, LIM)); HOLD.clear(); HOLD.update(x=x, y=y)
            B.e.contracts["str_match"] = c_match
        B.x = x; return [x, y]
    def post(V, r):
        x = V.B.x; t = CODE["B8"]
        if V.native:
            if None in V.B.ss: V.check("not a text", V.iserr(r)); return
            w = [1 if glob(s, V.B.p) else 0 for s in V.B.ss]; V.check("type", V.typ(r) == (-t & 255 if kind == "C8" else t))
            V.check("result", [V.av(r, 1)] == w if kind == "C8" else V.len(r) == len(w) and [V.el(r, i, 1) for i in range(len(w))] == w); return
        if kind == "C8": V.check("type", eq(V.typ(r), -t & 255, 8)); V.check("result", eq(V.av(r, 1), If(MATCH(z3.BitVecVal(1, 64), S.bv(x.n, 64)), 1, 0, 8), 8)); return
        text = lambda k: And(Not(eq(x.at(k), 0, 64)), eq(OB(1, add(x.at(k), 2)), CODE["C8"], 8))
        if V.iserr(r):
            return
        V.check("type", eq(V.typ(r), t, 8)); V.check("length", eq(V.len(r), x.n, 64))
        V.forall("every element is a text", 0, x.n, lambda k: V.check("every element is a text", text(k)))
        V.forall("elem", 0, x.n, lambda k: V.check("elem", eq(V.el(r, k, 1), If(MATCH(S.bv(add(x.at(k), 16), 64), OB(8, add(x.at(k), 8))), 1, 0, 8), 8)))
    return Inst("ray_like(%s)" % kind, "ray_like", setup, post, module="logic", contracts={"str_match": c_match}, opts=dict(opaque=True), nat=dict(runtime=True))
def liketexts():
    """no error when every element is a text"""
    def setup(B):
        n = B.int("n", 64, 0, LIM); x = B.vec("x", "LIST", n); y = B.vec("y", "C8", B.int("m", 64, 0, LIM)); HOLD.clear(); HOLD.update(x=x, y=y); B.e.contracts["str_match"] = c_match
        u = z3.BitVec("u_txt", 64); B.st.facts.append(Fact(u, 0, n, And(Not(eq(x.at(u), 0, 64)), eq(OB(1, add(x.at(u), 2)), CODE["C8"], 8)))); return [x, y]
    return Inst("ray_like(LIST of texts)", "ray_like", setup, lambda V, r: V.check("no error", not V.iserr(r)), module="logic", contracts={"str_match": c_match}, opts=dict(opaque=True), native=False)
def likeother(tx, ty):
    def setup(B): return [B.struct("x", 32, {2: (1, tx & 255)}), B.struct("y", 32, {2: (1, ty & 255)})]
    return Inst("ray_like(type %d, type %d)" % (tx, ty), "ray_like", setup, lambda V, r: V.check("error", V.iserr(r)), module="logic", native=False)
def instances(tier="quick"):
    o = [match(False), match(True), like("C8"), like("LIST"), liketexts()]
    o += [likeother(a, b) for a, b in ((12, 0), (12, 6), (12, -6), (12, -12), (-12, 12), (6, 12), (-6, 12), (0, 0), (0, -6), (5, 12), (99, 12), (98, 12), (126, 12))]
    return o
