"""Sound integer abstraction of bit-vector queries: linear terms that provably do not wrap (by interval propagation) become integer
terms, every other atom becomes an opaque proposition.  unsat of the abstraction implies unsat of the query."""
import z3
from sym import lin, sgn, mask, conc, isc, zb
K = z3
CMP = {K.Z3_OP_SLT: ("s", "<"), K.Z3_OP_SLEQ: ("s", "<="), K.Z3_OP_SGT: ("s", ">"), K.Z3_OP_SGEQ: ("s", ">="),
       K.Z3_OP_ULT: ("u", "<"), K.Z3_OP_ULEQ: ("u", "<="), K.Z3_OP_UGT: ("u", ">"), K.Z3_OP_UGEQ: ("u", ">=")}
DIVK = {K.Z3_OP_BSDIV: "sdiv", K.Z3_OP_BSDIV_I: "sdiv", K.Z3_OP_BSREM: "srem", K.Z3_OP_BSREM_I: "srem",
        K.Z3_OP_BUDIV: "udiv", K.Z3_OP_BUDIV_I: "udiv", K.Z3_OP_BUREM: "urem", K.Z3_OP_BUREM_I: "urem", K.Z3_OP_BLSHR: "lshr", K.Z3_OP_BASHR: "ashr"}
EXTK = {K.Z3_OP_SIGN_EXT: "sext", K.Z3_OP_ZERO_EXT: "zext", K.Z3_OP_EXTRACT: "trunc"}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}
def tdiv(a, b):
    q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q

class Atom:
    __slots__ = ("e", "id", "w", "lo", "hi", "kind", "x", "y", "c", "z")
ATOM = {}; TERM = {}; FORM = {}
def atom(a):
    k = a.get_id(); r = ATOM.get(k)
    if r is not None: return k
    r = Atom(); r.e, r.id = a, k; w = r.w = a.size(); r.kind = r.x = r.y = r.c = None; r.z = None
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    ATOM[k] = r
    if z3.is_app(a):
        kd = a.decl().kind()
        if kd == K.Z3_OP_ITE:
            r.kind = "ite"; r.c = form(a.arg(0)); r.x = term(a.arg(1)); r.y = term(a.arg(2))
        elif kd in EXTK:
            n = EXTK[kd]; x = a.arg(0)
            if n == "trunc":
                if a.params()[1] == 0: r.kind = n; r.x = term(x)
            else:
                r.kind = n; r.x = term(x); v = x.size()
                if n == "zext": lo, hi = 0, min(hi, mask(v))
                else: lo, hi = -(1 << (v - 1)), (1 << (v - 1)) - 1
        elif kd in DIVK and z3.is_bv_value(a.arg(1)):
            n = DIVK[kd]; c = a.arg(1).as_long()
            if n[0] == "s": c = sgn(c, w)
            if n in ("lshr", "ashr"):
                c = 1 << c if c < w else 0
                if n == "lshr" and c > 1: lo, hi = 0, mask(w) // c
            elif n == "udiv" and c > 1: lo, hi = 0, mask(w) // c
            elif n == "urem" and 0 < c <= hi: lo, hi = 0, c - 1
            elif n == "srem" and c > 0: lo, hi = -(c - 1), c - 1
            if c > 0: r.kind = n; r.c = c; r.x = term(a.arg(0))
        elif kd in (K.Z3_OP_BSDIV, K.Z3_OP_BSDIV_I): r.kind = "vdiv"; r.x = term(a.arg(0)); r.y = term(a.arg(1))
        elif kd == K.Z3_OP_BMUL and a.num_args() == 2 and not z3.is_bv_value(a.arg(0)) and not z3.is_bv_value(a.arg(1)):
            r.kind = "mul"; r.x = term(a.arg(0)); r.y = term(a.arg(1))
        elif kd == K.Z3_OP_BAND and a.num_args() == 2:
            x, y = a.arg(0), a.arg(1)
            if z3.is_bv_value(x): x, y = y, x
            if z3.is_bv_value(y):
                c = y.as_long(); r.kind = "and"; r.c = c; r.x = term(x)
                if c <= hi: lo, hi = 0, c
        elif kd == K.Z3_OP_CONCAT and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0:
            r.kind = "zext"; r.x = term(a.arg(1)); lo, hi = 0, mask(a.arg(1).size())
    r.lo, r.hi = lo, hi
    return k
def term(e):
    """-> (width, ((atom id, signed coefficient), ...), signed const)"""
    k = e.get_id(); r = TERM.get(k)
    if r is not None: return r[0]
    w = e.size(); l = lin(e)
    t = (w, tuple((atom(a), sgn(c, w)) for a, c in l[0].values()), sgn(l[1] & mask(w), w))
    TERM[k] = (t, e); return t
def form(f):
    k = f.get_id(); r = FORM.get(k)
    if r is not None: return r[0]
    if len(FORM) > 200000: FORM.clear(); TERM.clear(); ATOM.clear(); ZF.clear()
    r = form1(f); FORM[k] = (r, f); return r
def form1(f):
    k = f.decl().kind()
    if k == K.Z3_OP_TRUE: return ("T",)
    if k == K.Z3_OP_FALSE: return ("F",)
    if k == K.Z3_OP_AND: return ("&",) + tuple(form(x) for x in f.children())
    if k == K.Z3_OP_OR: return ("|",) + tuple(form(x) for x in f.children())
    if k == K.Z3_OP_NOT: return neg(form(f.arg(0)))
    if k == K.Z3_OP_IMPLIES: return ("|", neg(form(f.arg(0))), form(f.arg(1)))
    if k == K.Z3_OP_XOR: return ("x", form(f.arg(0)), form(f.arg(1)))
    if k == K.Z3_OP_ITE: return ("i", form(f.arg(0)), form(f.arg(1)), form(f.arg(2)))
    if k == K.Z3_OP_EQ:
        a, b = f.arg(0), f.arg(1)
        if z3.is_bool(a): return ("b", form(a), form(b))
        if z3.is_bv(a): return ("c", "e", "==", term(a), term(b), f.get_id(), f)
    elif k == K.Z3_OP_DISTINCT and f.num_args() == 2 and z3.is_bv(f.arg(0)): return ("!", ("c", "e", "==", term(f.arg(0)), term(f.arg(1)), f.get_id(), f))
    elif k in CMP: return ("c",) + CMP[k] + (term(f.arg(0)), term(f.arg(1)), f.get_id(), f)
    return ("o", f.get_id(), f)
def neg(x):
    if x[0] == "!": return x[1]
    if x[0] == "T": return ("F",)
    if x[0] == "F": return ("T",)
    if x[0] == "|": return ("&",) + tuple(neg(y) for y in x[1:])
    if x[0] == "&": return ("|",) + tuple(neg(y) for y in x[1:])
    return ("!", x)
ZF = {}
class Lia:
    def __init__(s, wrap=False):
        s.wrapm = wrap; s.wr = {}; s.keep = []; s.iv = {}; s.ints = {}; s.opaque = 0; s.side = []; s.prods = []; s.dep = {}; s.cache = {}
    def interval(s, k):
        v = s.iv.get(k)
        if v is None:
            a = ATOM[k]; s.iv[k] = v = (a.lo, a.hi)
            r = s.shape_iv(a)
            if r: v = s.iv[k] = (max(v[0], r[0]), min(v[1], r[1]))
        return v
    def refresh(s):
        ch = False
        for k, (lo, hi) in list(s.iv.items()):
            a = ATOM[k]
            if a.kind:
                r = s.shape_iv(a)
                if r and (r[0] > lo or r[1] < hi): s.iv[k] = (max(lo, r[0]), min(hi, r[1])); ch = True
        return ch
    def shape_iv(s, a):
        k = a.kind
        if k is None: return None
        x = s.fits(a.x)
        if not x: return None
        lo, hi = x[2], x[3]
        if k == "ite":
            y = s.fits(a.y)
            return (min(lo, y[2]), max(hi, y[3])) if y else None
        if k == "mul":
            y = s.fits(a.y)
            if not y: return None
            c = [lo * y[2], lo * y[3], hi * y[2], hi * y[3]]; m, n = min(c), max(c)
            return (m, n) if m >= -(1 << (a.w - 1)) and n < 1 << (a.w - 1) else None
        if k == "vdiv":
            y = s.fits(a.y)
            return (lo // y[3], hi // y[2]) if y and y[2] > 0 and lo >= 0 else None
        if k == "zext": return (lo, hi) if lo >= 0 else None
        if k == "sext": return lo, hi
        if k == "trunc": return (lo, hi) if lo >= -(1 << (a.w - 1)) and hi < 1 << (a.w - 1) else None
        c = a.c
        if k == "ashr": return lo // c, hi // c
        if k in ("sdiv", "udiv", "lshr"):
            if k != "sdiv" and lo < 0: return None
            return tdiv(lo, c), tdiv(hi, c)
        if k in ("srem", "urem"):
            if k == "urem" and lo < 0: return None
            return (max(1 - c, lo) if lo < 0 else 0), (min(c - 1, hi) if hi > 0 else 0)
        if k == "and" and lo >= 0: return 0, min(hi, c) if c < 1 << (a.w - 1) else hi
        return None
    def fits(s, T):
        w, t, c = T
        for k, f in t:
            a = ATOM[k]
            if a.kind in ("sext", "zext", "trunc"):
                d = {}
                for k2, f2 in t:
                    a2 = ATOM[k2]; x = None
                    if a2.kind in ("sext", "zext", "trunc"):
                        x = s.fits(a2.x)
                        if x and a2.kind == "zext" and x[2] < 0: x = None
                        if x and a2.kind == "trunc" and not (x[2] >= -(1 << (a2.w - 1)) and x[3] < 1 << (a2.w - 1)): x = None
                    if x:
                        for q, g in x[0]: d[q] = d.get(q, 0) + f2 * g
                        c += f2 * x[1]
                    else: d[k2] = d.get(k2, 0) + f2
                t = tuple((q, g) for q, g in d.items() if g)
                break
        lo = hi = c
        for k, f in t:
            v = s.iv.get(k) or s.interval(k)
            if f > 0: lo += f * v[0]; hi += f * v[1]
            else: lo += f * v[1]; hi += f * v[0]
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)): return t, c, lo, hi
        return None
    def tight(s, t, c):
        """bound propagation for sum(t)+c <= 0"""
        ch = False; lo = c
        for k, f in t:
            v = s.interval(k); lo += f * v[0] if f > 0 else f * v[1]
        for k, f in t:
            x, y = s.iv[k]
            rest = lo - (f * x if f > 0 else f * y)
            if f > 0:
                b = (-rest) // f
                if b < y: s.iv[k] = (x, b); ch = True
            else:
                b = -((-rest) // (-f))
                if b > x: s.iv[k] = (b, y); ch = True
        return ch
    def learn(s, fs):
        r = s.learn1(fs)
        if r and s.wrapm:
            # constructive disjunction: the hull of the intervals of the cases
            ds = []; st = list(fs)
            while st:
                f = st.pop()
                if f[0] == "&": st.extend(f[1:])
                elif f[0] == "|" and len(f) == 3 and all(s.lit1(x) for x in f[1:]): ds.append(f)
            ch = False
            for f in ds[:60]:
                hulls = []
                iv0 = dict(s.iv)
                for x in f[1:]:
                    s.iv = dict(iv0)
                    if s.learn1([x]): hulls.append(s.iv)
                s.iv = iv0
                if not hulls: return False
                for k in list(iv0):
                    h = (min(v.get(k, iv0[k])[0] for v in hulls), max(v.get(k, iv0[k])[1] for v in hulls))
                    h = (max(h[0], iv0[k][0]), min(h[1], iv0[k][1]))
                    if h != iv0[k]: s.iv[k] = h; ch = True
            if ch: return s.learn1(fs)
        return r
    def lit1(s, f):
        if f[0] == "!": f = f[1]
        return f[0] == "c" and f[1] != "u" and len(f[3][1]) + len(f[4][1]) <= 3
    def learn1(s, fs):
        lits = []; st = list(fs)
        while st:
            f = st.pop()
            if f[0] == "&": st.extend(f[1:])
            elif f[0] == "F": return False
            elif f[0] == "c": lits.append((f, False))
            elif f[0] == "!" and f[1][0] == "c" and f[1][2] != "==": lits.append((f[1], True))
        for rnd in range(8):
            ch = False
            for f, ng in lits:
                _, sg, op, A, B, _, _ = f
                x, y = s.fits(A), s.fits(B); up = (op in ("<", "<=")) != ng
                if sg == "u":
                    if not up: A, B, x, y = B, A, y, x
                    # now A <u(=) B in effect
                    o = op if not ng else NEG[op]; strict = o in ("<", ">")
                    if y and y[2] >= 0:
                        if (x is None or x[2] < 0) and len(A[1]) == 1 and A[1][0][1] == 1 and A[2] == 0:
                            k = A[1][0][0]; lo, hi = s.interval(k); n = (max(lo, 0), min(hi, y[3] - strict))
                            if n != (lo, hi): s.iv[k] = n; ch = True
                            continue
                        if x is None: continue
                        if x[2] < 0: ch |= s.tight([(q, -g) for q, g in x[0]], -x[1]); x = s.fits(A)
                        if x is None or x[2] < 0: continue
                        d = dict(x[0])
                        for q, g in y[0]: d[q] = d.get(q, 0) - g
                        ch |= s.tight([(q, g) for q, g in d.items() if g], x[1] - y[1] + strict)
                    continue
                if x is None or y is None: continue
                d = dict(x[0])
                for q, g in y[0]: d[q] = d.get(q, 0) - g
                t = [(q, g) for q, g in d.items() if g]; c = x[1] - y[1]
                if not t:
                    o = NEG[op] if ng else op
                    if not {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0}[o]: return False
                    continue
                o = NEG[op] if ng else op
                if o in ("<", "<="): ch |= s.tight(t, c + (o == "<"))
                elif o in (">", ">="): ch |= s.tight([(q, -g) for q, g in t], -c + (o == ">"))
                else: ch |= s.tight(t, c); ch |= s.tight([(q, -g) for q, g in t], -c)
            for k, v in s.iv.items():
                if v[0] > v[1]: return False
            ch |= s.refresh()
            if not ch: break
        return all(v[0] <= v[1] for v in s.iv.values())
    # ---- translation
    def var(s, k):
        v = s.ints.get(k)
        if v is None:
            a = ATOM[k]
            if a.z is None: a.z = z3.Int("i%d" % k)
            v = s.ints[k] = a.z; s.define(a, v)
        return v
    def iterm(s, x):
        r = None
        for k, f in x[0]:
            v = s.var(k); p = v if f == 1 else f * v
            r = p if r is None else r + p
        if r is None: return z3.IntVal(x[1])
        return r + x[1] if x[1] else r
    def val(s, T):
        """(integer term, lo, hi) of the signed value of the bit-vector term T, or None"""
        x = s.fits(T)
        if x: return s.iterm(x), x[2], x[3]
        if not s.wrapm: return None
        w, t, c = T; h = 1 << (w - 1)
        r = s.wr.get(T)
        if r is None:
            lo = hi = c
            for k, f in t:
                v = s.interval(k)
                if f > 0: lo += f * v[0]; hi += f * v[1]
                else: lo += f * v[1]; hi += f * v[0]
            k0, k1 = (lo + h) >> w, (hi + h) >> w
            if k1 - k0 > 64: s.wr[T] = False; return None
            q = z3.Int("w%d" % len(s.wr)); X = s.iterm((t, c)) - (1 << w) * q
            s.side += [q >= k0, q <= k1, X >= -h, X < h]
            r = s.wr[T] = (X, -h, h - 1)
        return r or None
    def product(s, x, y, p):
        """p = x*y : sign lemmas, and monotonicity against the other products with a common factor"""
        s.keep += [x, y, p]; s.opaque += 1
        s.side += [z3.Implies(z3.And(x >= 0, y >= 0), p >= 0), z3.Implies(z3.Or(x == 0, y == 0), p == 0),
                   z3.Implies(z3.And(x >= 1, y >= 0), p >= y), z3.Implies(z3.And(y >= 1, x >= 0), p >= x),
                   z3.Implies(x == 1, p == y), z3.Implies(y == 1, p == x)]
        for x2, y2, q in s.prods:
            for a, b in ((x, y), (y, x)):
                for c, d in ((x2, y2), (y2, x2)):
                    if not b.eq(d): continue
                    s.side += [z3.Implies(z3.And(b >= 0, a < c), p + b <= q), z3.Implies(z3.And(b >= 0, a > c), q + b <= p), z3.Implies(a == c, p == q),
                               z3.Implies(a == c + 1, p == q + b), z3.Implies(c == a + 1, q == p + b)]
        s.prods.append((x, y, p))
    def define(s, a, v):
        k = a.kind
        if k is None: return
        x = s.val(a.x)
        if not x: return
        X = x[0]; x = (None, None, x[1], x[2])
        if k in ("sext", "zext", "trunc"):
            if k == "zext" and x[2] < 0: s.side.append(v == z3.If(X >= 0, X, X + (1 << a.x[0])))
            elif k == "trunc" and not (x[2] >= -(1 << (a.w - 1)) and x[3] < 1 << (a.w - 1)): s.side.append(v == X - (1 << a.w) * z3.Int("q%d" % a.id))
            else: s.side.append(v == X)
            return
        if k in ("mul", "vdiv"):
            y = s.val(a.y)
            if not y or s.shape_iv(a) is None: return
            Y = y[0]
            if k == "mul": s.product(X, Y, v)
            else:
                m = z3.Int("m%d" % a.id); s.product(Y, v, m); s.side += [m <= X, X < m + Y]
            return
        if k == "ite":
            y = s.val(a.y)
            if y: s.side.append(v == z3.If(s.tr(a.c), X, y[0]))
            return
        c = a.c
        if k == "and":
            q = z3.Int("q%d" % a.id); w = a.w
            if c and (c + 1) & c == 0 and c < 1 << (w - 1): s.side += [X == (c + 1) * q + v, v >= 0, v <= c]
            elif (c ^ mask(w)) & ((c ^ mask(w)) + 1) == 0:
                m = (c ^ mask(w)) + 1; s.side += [v == m * q, X - v >= 0, X - v < m]
            return
        un = k in ("udiv", "urem", "lshr") and x[2] < 0
        fl = k == "ashr" or x[2] >= 0 or un
        if un: X = z3.If(X >= 0, X, X + (1 << a.w))
        kk = (X.get_id(), c, fl, un); s.keep.append(X); qr = s.dep.get(kk)
        if qr is None:
            qr = s.dep[kk] = (z3.Int("q%d" % a.id), z3.Int("r%d" % a.id)); q, r = qr
            s.side.append(X == c * q + r)
            if fl: s.side += [r >= 0, r < c]
            else: s.side.append(z3.Or(z3.And(X >= 0, r >= 0, r < c), z3.And(X < 0, r <= 0, r > -c)))
        s.side.append(v == (qr[1] if k in ("srem", "urem") else qr[0]))
    def opq(s, k):
        s.opaque += 1; v = ZF.get(k)
        if v is None: v = ZF[k] = z3.Bool("p%d" % k)
        return v
    def tr(s, f):
        o = f[0]
        if o == "c":
            r = s.cache.get(f[5])
            if r is None: r = s.cache[f[5]] = s.cmp(f)
            return r
        if o == "o": return s.opq(f[1])
        if o == "&": return z3.And(*[s.tr(x) for x in f[1:]])
        if o == "|": return z3.Or(*[s.tr(x) for x in f[1:]])
        if o == "!": return z3.Not(s.tr(f[1]))
        if o == "T": return z3.BoolVal(True)
        if o == "F": return z3.BoolVal(False)
        if o == "x": return z3.Xor(s.tr(f[1]), s.tr(f[2]))
        if o == "b": return s.tr(f[1]) == s.tr(f[2])
        return z3.If(s.tr(f[1]), s.tr(f[2]), s.tr(f[3]))
    def cmp(s, f):
        _, sg, op, A, B, k, _ = f
        x, y = s.val(A), s.val(B)
        if x and y:
            if sg == "e": return x[0] == y[0]
            if sg == "u" and op in (">", ">="): x, y, op = y, x, {">": "<", ">=": "<="}[op]
            a, b = x[0], y[0]; x = (0, 0) + x[1:]; y = (0, 0) + y[1:]
            r = a < b if op == "<" else a <= b if op == "<=" else a > b if op == ">" else a >= b
            if sg == "s" or (x[2] >= 0 and y[2] >= 0): return r
            # unsigned: negative (signed) values are above the non-negative ones
            if y[2] >= 0: return z3.And(a >= 0, r)
            if x[2] >= 0: return z3.Or(b < 0, r)
        return s.opq(k)
    def apps(s):
        """uninterpreted applications among the integer variables: decl -> [(argument values, value)]"""
        out = {}
        for k, v in list(s.ints.items()):
            e = ATOM[k].e
            if z3.is_app(e) and e.num_args() and e.decl().kind() == K.Z3_OP_UNINTERPRETED and all(z3.is_bv(x) for x in e.children()): out.setdefault(e.decl().get_id(), []).append((e, v))
        r = []
        for l in out.values():
            if len(l) < 2 or len(l) > 40: continue
            m = []
            for e, v in l:
                xs = [s.val(term(x)) for x in e.children()]
                if all(xs): m.append(([x[0] for x in xs], v))
            if len(m) > 1: r.append(m)
        return r
    def unsat(s, fs, timeout=400, cong=False):
        """True: fs unsatisfiable; False: abstraction satisfiable without opaque atoms; None: unknown"""
        P = [form(f) for f in fs]
        if not s.learn(P): return True
        ops = []; fm = []
        s.pure = []
        for f in P:
            n = s.opaque; fm.append(s.tr(f)); s.pure.append(s.opaque == n)
        sv = z3.SimpleSolver(); sv.set("timeout", timeout)
        sv.add(*fm); i = 0
        if s.side: sv.add(*s.side)
        b = []
        for k, v in s.ints.items():
            lo, hi = s.interval(k); b.append(v >= lo); b.append(v <= hi)
        if b: sv.add(*b)
        r = sv.check()
        if cong and r == z3.sat and len(s.ints) < 400:
            n0 = len(s.side); known = set(s.ints); aps = s.apps()
            if aps:
                sv.add(*s.side[n0:])
                for k in list(s.ints):
                    if k not in known: lo, hi = s.interval(k); v = s.ints[k]; sv.add(v >= lo, v <= hi)
                for rnd in range(8):
                    r = sv.check()
                    if r != z3.sat: break
                    m = sv.model(); new = []
                    for l in aps:
                        by = {}
                        for xs, v in l: by.setdefault(tuple(str(m.eval(x, True)) for x in xs), []).append((xs, v, str(m.eval(v, True))))
                        for g in by.values():
                            for xs, v, c in g[1:]:
                                if c != g[0][2]: new.append(z3.Implies(z3.And(*[x == y for x, y in zip(xs, g[0][0])]), v == g[0][1]))
                    if not new: break
                    sv.add(*new)
        s.sv, s.res, s.fm = sv, r, fm
        if r == z3.unsat: return True
        if r == z3.sat and not s.opaque: return False
        return None
