"""C15: decoding.  de_value(buf, len, depth) under contract for every type byte: it reads only buf[0..*len), yields a value that took at most the
bytes that were there (exactly the described ones for atoms and vectors, element by element) or an error, and leaves *len between 0 and what it was;
parts of containers by the same contract (recursion), nesting is limited.  The round trip instances (used by C14) decode the form of a value."""
from spec import *
import sym as S, z3, ctypes
from sym import norm
from contract import Inst, CODE, WIDTH, LIM, BASE
from engine import Ptr, Fact, Region, Init, Unsupported, PathEnd
from builtins_ir import rng
import contracts.c14 as D
from contracts.c14 import ATOMS, B64, SLEN, SIZE
OB = lambda n, p: z3.Function("ob!%d" % n, B64, z3.BitVecSort(8 * n))(S.bv(norm(p), 64))
ISTAB = z3.Function("istable", B64, B64, z3.BoolSort()); CNT = z3.Function("opscount", B64, B64)
MAXD = 4096
TC = {t: CODE[t] for t in ATOMS + ("SYMBOL", "LIST", "TABLE", "DICT", "LAMBDA", "UNARY", "BINARY", "VARY", "NULL", "ERR")}
# ---- callee contracts
def c_de(hold):
    def c(e, st, a, ins):
        """de_value(buf, len, depth): reads only buf[0..*len); a value or an error; 0 <= *len afterwards <= before"""
        buf, lp, depth = a; L = e.read(st, lp.r, lp.o, 8)
        e.check(st, S.icmp("sge", L, 0, 64), "de_value:length"); rng(e, st, buf, L, "de_value")
        e.check(st, And(S.icmp("sgt", depth, hold["depth"], 64), S.icmp("sle", depth, add(hold["depth"], 1, 64), 64)), "de_value:depth")
        if "SP" in hold and hold.get("rt"):
            k = hold["part"](e, st, buf) if hold["parts"] else e.ctr[-1] if e.ctr else 0
            v = hold["el"](k); n = SIZE(S.bv(v, 64)); e.check(st, eq(buf.o, add(hold["o0"], hold["SP"](k), 64), 64), "de_value:position")
            e.check(st, sle(n, L, 64), "de_value:the part is there"); st.assume(S.icmp("ne", OB(1, add(v, 2, 64)), 127, 8))
            e.write(st, lp.r, lp.o, 8, norm(sub(L, n, 64))); return [(st, Ptr(None, v))]
        v = e.fresh("val", 64); n = e.fresh("left", 64); st.assume(And(S.icmp("sge", n, 0, 64), sle(n, L, 64)))
        e.write(st, lp.r, lp.o, 8, n); return [(st, Ptr(None, v))]
    return c
def c_strlen(hold):
    def c(e, st, a, ins):
        """str_len(s, n): the index of the first zero byte in s[0..n), n if there is none"""
        p, n = a; rng(e, st, p, n, "str_len")
        if hold.get("rt"):
            t = e.ctr[-1] if e.ctr else 0; l = SLEN(S.bv(hold["el"](t), 64)); e.check(st, eq(p.o, add(hold["o0"], hold["SP"](t), 64), 64), "str_len:position")
            e.check(st, slt(l, n, 64), "str_len:the text is there"); return [(st, l)]
        l = e.fresh("slen", 64); st.assume(And(S.icmp("sge", l, 0, 64), sle(l, n, 64))); st.ghost["slen"] = (p, n, l); return [(st, l)]
    return c
def c_intern(hold):
    def c(e, st, a, ins):
        """symbols_intern(s, n): the symbol with this text; reads s[0..n)"""
        rng(e, st, a[0], a[1], "symbols_intern")
        if hold.get("rt"):
            t = e.ctr[-1] if e.ctr else 0; i = hold["el"](t)
            e.check(st, And(eq(a[0].o, add(hold["o0"], hold["SP"](t), 64), 64), eq(a[1], SLEN(S.bv(i, 64)), 64)), "symbols_intern:text"); return [(st, i)]
        return [(st, e.fresh("symid", 64))]
    return c
def c_erruser(e, st, a, ins):
    """err_user(text): requires a terminated text"""
    g = st.ghost.get("slen"); e.check(st, g is not None and And(eq(g[0].o, a[0].o, 64), slt(g[2], g[1], 64)), "err_user:terminated")
    return [(st, e.glob(e.w.mod("rayforce"), "__ERR_OBJ"))]
def c_intfn(e, st, a, ins):
    """env_get_internal_function(name): requires a terminated text; the function of that name or null"""
    p = a[0]; ok = False
    for rec in st.loops: ok = Or(ok, And(S.icmp("sge", rec.T, 0, 64), slt(add(p.o, rec.T, 64), e.hold["n"], 64), eq(e.read(st, p.r, norm(add(p.o, rec.T, 64)), 1), 0, 8)))
    e.check(st, ok, "env_get_internal_function:terminated"); return [(st, Ptr(None, e.fresh("intfn", 64)))]
def c_istab(e, st, a, ins):
    """de_is_table(names, columns): a symbol header and equally long columns, one for each name"""
    return [(st, If(ISTAB(D.opaque(a[0]), D.opaque(a[1])), 1, 0, 8))]
def c_cont(tp):
    def c(e, st, a, ins):
        k, v = D.opaque(a[0]), D.opaque(a[1]); K, T = OB(1, add(k, 2, 64)), OB(1, add(v, 2, 64))
        if tp == "TABLE": e.check(st, ISTAB(k, v), "table:well-formed")
        if tp == "DICT": e.check(st, And(S.icmp("sge", K, 0, 8), S.icmp("sge", T, 0, 8)), "dict:well-formed")
        if tp == "LAMBDA": e.check(st, Or(eq(K, CODE["SYMBOL"], 8), And(S.icmp("sge", K, 0, 8), eq(OB(8, add(k, 8, 64)), 0, 64))), "lambda:well-formed")
        st.ghost["made"] = (tp, k, v); return [(st, Ptr(None, e.fresh("made", 64)))]
    return c
def c_opcount(e, st, a, ins):
    """ops_count(x): the number of elements of x"""
    return [(st, CNT(D.opaque(a[0])))]
def CT(hold): return {"de_value": c_de(hold), "str_len": c_strlen(hold), "symbols_intern": c_intern(hold), "err_user": c_erruser, "env_get_internal_function": c_intfn, "de_is_table": c_istab,
                      "table": c_cont("TABLE"), "dict": c_cont("DICT"), "lambda": c_cont("LAMBDA")}
def inv_len(hold):
    def f(e, sm, t):
        hold["t"] = sm.t; out = []
        for v in sm.vars:
            if v.isptr or v.w != 64 or v.kind != "general": continue
            c = sm.cur(v, t); out += [S.icmp("sge", c, 0, 64), sle(c, v.init, 64)]
            if "SP" in hold:
                out += [eq(c, sub(v.init, hold["SP"](t), 64), 64), eq(c, add(v.init, hold["SP"](t), 64), 64)]
            for x in sm.vars:
                if x.isptr and x.kind == "general":      # the reading position and the number of bytes left
                    out.append(eq(add(sm.cur(x, t).o, c, 64), add(x.init.o, v.init, 64), 64))
        if "SP" in hold:
            for x in sm.vars:
                if x.isptr and x.kind == "general": out.append(eq(sm.cur(x, t).o, add(x.init.o, hold["SP"](t), 64), 64))
        return out
    return f
# ---- well-formed values, natively
def wellformed(V, p, depth=0):
    t = sgn8(V.typ(p))
    if depth > 200: return True
    if p == V.null_obj: return True
    if t < 0: return -t in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12) and (t != -1 or V.av(p, 1) in (0, 1))
    n = V.len(p)
    if t == 1: return all(V.el(p, i, 1) in (0, 1) for i in range(n))
    if t == 0: return all(wellformed(V, V.el(p, i, 8), depth + 1) and not iserr(V, V.el(p, i, 8)) for i in range(n))
    if t in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12): return V.el(p, n - 1, WIDTH[[k for k, v in CODE.items() if v == t][0]]) is not None if n else True
    if t in (98, 99):
        a, b = V.el(p, 0, 8), V.el(p, 1, 8)
        if not (wellformed(V, a, depth + 1) and wellformed(V, b, depth + 1)): return False
        if t == 99: return sgn8(V.typ(a)) >= 0 and sgn8(V.typ(b)) >= 0
        if sgn8(V.typ(a)) != 6 or sgn8(V.typ(b)) != 0: return False
        l = [V.el(b, i, 8) for i in range(V.len(b))]
        return all(sgn8(V.typ(c)) >= 0 for c in l) and (not l or (len(l) == V.len(a) and len({V.lib.ops_count(ctypes.c_void_p(c)) for c in l}) == 1))
    return t in (100, 101, 102, 103, 126, 127)
def sgn8(v): return v - 256 if v > 127 else v
def iserr(V, p): return sgn8(V.typ(p)) == 127
def reser(V, p):
    """the serialized form of p by the library"""
    V.lib.size_obj.restype = ctypes.c_int64; V.lib.ser_raw.restype = ctypes.c_int64
    n = V.lib.size_obj(ctypes.c_void_p(p)); b = ctypes.create_string_buffer(max(n, 1) + 64); m = V.lib.ser_raw(b, ctypes.c_void_p(p)); return b.raw[:n] if m == n else None
def body(B, tp, n):
    """n bytes starting with the type tp, natively: a valid form, damaged"""
    r = B.rng; t = sgn8(tp & 255)
    name = next((k for k, v in CODE.items() if v == abs(t)), None); name = ("-" if t < 0 else "") + (name or "")
    try: bs = D.nested(B, name)[1] if name in ("LIST", "TABLE", "DICT") else D.val(B, name)[1] if name.strip("-") in ATOMS else None
    except Exception: bs = None
    if bs is None: bs = bytes([tp & 255]) + bytes(r.choice((0, 0, 97, 98, 250, 1, 5)) for _ in range(r.choice((0, 1, 9, 12, 30))))
    if t in (100,): bs = bytes([100, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0]) + bytes([251]) + bytes(8)
    bs = bytearray(bs); k = r.random()
    if k < 0.3: bs = bs[:r.randint(1, len(bs))]
    if k < 0.6 and len(bs) > 1:
        for _ in range(r.choice((1, 1, 2, 4))): bs[r.randrange(1, len(bs))] = r.choice((0, 1, 2, 255, 128, r.randrange(256)))
    if 0.55 < k < 0.7: bs += bytes(r.randrange(256) for _ in range(r.choice((1, 5))))
    return bytes(bs)
class X: pass
def inp(B, tp, elw=1, n=None):
    """*len bytes, the first is tp"""
    x = X(); x.d = B.int("depth", 64, 0, MAXD)
    if B.native:
        bs = body(B, tp, n); x.n = len(bs); x.bytes = bs; x.buf = B.buf("in", x.n, 1, at=lambda i: bs[i]); x.l = int.from_bytes((bs[2:10] + bytes(8))[:8], "little")
        x.len = B.struct("len", 8, {0: (8, x.n)}); x.at = lambda k: int.from_bytes(bs[10 + k * elw:10 + (k + 1) * elw], "little"); x.v = lambda w: int.from_bytes(bs[1:1 + w], "little")
    else:
        x.n = B.int("n", 64, 1, 1 << 34) if n is None else n; x.l = z3.BitVec("count", 64); arr = z3.Function("in", B64, z3.BitVecSort(8 * elw)); t = sgn8(tp & 255)
        cells = {0: (1, tp & 255)}
        if t < 0 and elw > 1: cells.update({1: (elw, z3.BitVec("value", 8 * elw))} if elw <= 8 else {1: (8, z3.BitVec("value0", 64)), 9: (8, z3.BitVec("value1", 64))}); ars = [(0, 1, (lambda i: z3.Function("rest", B64, z3.BitVecSort(8))(S.bv(i, 64))), None)]
        elif 0 <= t <= 12: cells.update({1: (1, z3.BitVec("attr", 8)), 2: (8, x.l)}); ars = [(10, elw, lambda i: arr(S.bv(i, 64)), None)]
        else: ars = [(0, 1, lambda i: arr(S.bv(i, 64)), None)]
        x.buf = Region("in", x.n, Init(cells, ars), "buf", writable=False); p = x.buf; x.buf = Ptr(p, 0); x.at = lambda k: arr(S.bv(k, 64))
        x.len = B.struct("len", 8, {0: (8, x.n)}); x.v = lambda w: cells[1][1] if w == elw and 1 in cells else arr(z3.BitVecVal(1, 64))
    return x
def argv(B, x): return [x.buf, x.len, x.d]
def left(V, x): return V.rd(x.len.p, 0, 8)
def rest(V, x, r):
    """what holds of every call"""
    l = left(V, x); V.check("length left", And(S.icmp("sge", l, 0, 64), sle(l, x.n, 64)))
    if V.native and not V.iserr(r) and not iserr(V, r): V.check("well-formed", wellformed(V, r))
def err(V, r): return V.iserr(r) or (V.native and iserr(V, r))
def atom(tp):
    w = WIDTH[tp]; t = CODE[tp]
    def setup(B): x = B.h = inp(B, -t, w); B.hold = HOLD; return argv(B, x)
    def post(V, r):
        x = V.B.h; rest(V, x, r); ok = S.icmp("sge", x.n, 1 + w, 64)
        def yes():
            V.check("type", not err(V, r) and eq(V.typ(r), -t & 255, 8)); V.check("bytes taken", eq(left(V, x), sub(x.n, 1 + w, 64), 64))
            if tp == "GUID":
                for k in (0, 1): V.check("value", eq(V.rd(r, 16 + 8 * k, 8), int.from_bytes(x.bytes[1 + 8 * k:9 + 8 * k], "little") if V.native else z3.BitVec("value%d" % k, 64), 64))
            else: V.check("value", eq(V.av(r, w), If(eq(x.v(1), 0, 8), 0, 1, 8) if tp == "B8" else x.v(w), 8 * w))
        V.case(ok, yes); V.case(Not(ok), lambda: V.check("error", err(V, r)))
    return Inst("de_value(-%s)" % tp, "de_value", setup, post, module="serde", contracts=CT(HOLD), nat=NAT)
def vec(tp):
    w = WIDTH[tp]; t = CODE[tp]
    def setup(B): x = B.h = inp(B, t, w if w <= 8 else 1); return argv(B, x)
    def post(V, r):
        x = V.B.h; rest(V, x, r); ok = And(S.icmp("sge", x.n, 10, 64), S.icmp("sge", x.l, 0, 64), S.icmp("sle", x.l, 10**9, 64), S.icmp("sge", sub(x.n, 10, 64), mul(x.l, w, 64), 64))
        def yes():
            V.check("type", not err(V, r) and eq(V.typ(r), t, 8)); V.check("count", eq(V.len(r), x.l, 64)); V.check("bytes taken", eq(left(V, x), sub(x.n, add(10, mul(x.l, w, 64), 64), 64), 64))
            if w == 16: V.forall("element", 0, mul(x.l, 16, 64), lambda k: V.check("element", eq(V.rd(r, norm(add(16, k, 64)), 1), x.at(k), 8)))
            else: V.forall("element", 0, x.l, lambda k: V.check("element", eq(V.el(r, k, w), If(eq(x.at(k), 0, 8), 0, 1, 8) if tp == "B8" else x.at(k), 8 * w)))
        V.case(ok, yes); V.case(Not(ok), lambda: V.check("error", err(V, r)))
    return Inst("de_value(%s)" % tp, "de_value", setup, post, module="serde", contracts=CT(HOLD), nat=NAT)
def other(tp):
    """symbols, containers, functions and errors: a value of that type or an error"""
    t = CODE[tp.strip("-")] * (-1 if tp[0] == "-" else 1)
    def setup(B):
        x = B.h = inp(B, t, 1)
        if not B.native: HOLD.clear(); HOLD["depth"] = x.d; HOLD["n"] = x.n; B.e.hold = HOLD; B.e.contracts.update(CT(HOLD))
        return argv(B, x)
    def post(V, r):
        x = V.B.h; rest(V, x, r)
        if tp == "NULL": V.check("null", V.isnullobj(r)); V.check("bytes taken", eq(left(V, x), sub(x.n, 1, 64), 64)); return
        if tp == "ERR": V.check("error", err(V, r)); return
        if V.native: V.check("type", err(V, r) or tp in ("UNARY", "BINARY", "VARY") or sgn8(V.typ(r)) == t); return
        if V.iserr(r): return
        if tp == "LIST" and r.r is None: V.check("error", eq(OB(1, add(r.o, 2, 64)), 127, 8)); return      # the error of a part
        if tp in ("SYMBOL", "LIST"): V.check("type", eq(V.typ(r), t, 8)); V.check("count", eq(V.len(r), x.l, 64))
        elif tp == "-SYMBOL": V.check("type", eq(V.typ(r), t & 255, 8))
        elif tp in ("TABLE", "DICT", "LAMBDA"):
            g = V.st.ghost.get("made"); V.check("type", Or(g is not None and g[0] == tp, eq(OB(1, add(D.opaque(r), 2, 64)), 127, 8)))
    return Inst("de_value(%s)" % tp, "de_value", setup, post, module="serde", contracts=CT(HOLD), opts=dict(invs=[inv_len(HOLD)], opaque=True), nat=NAT)
def bad(t):
    def setup(B): x = B.h = inp(B, t, 1); return argv(B, x)
    return Inst("de_value(type %d)" % t, "de_value", setup, lambda V, r: (rest(V, V.B.h, r), V.check("error", err(V, r))), module="serde", contracts=CT(HOLD), nat=NAT)
def empty():
    def setup(B):
        d = B.int("depth", 64, 0, MAXD); b = B.buf("in", 0, 1); x = B.h = X(); x.n = 0; x.len = B.struct("len", 8, {0: (8, 0)}); return [b, x.len, d]
    return Inst("de_value(nothing)", "de_value", setup, lambda V, r: (V.check("null", V.isnullobj(r)), V.check("length left", eq(left(V, V.B.h), 0, 64))), module="serde", contracts=CT(HOLD), nat=NAT)
def deep():
    def setup(B):
        n = B.int("n", 64, 0, 1 << 34); d = B.int("depth", 64, MAXD + 1, 1 << 40); b = B.buf("in", n, 1); x = B.h = X(); x.n = n; x.len = B.struct("len", 8, {0: (8, n)}); return [b, x.len, d]
    return Inst("de_value(too deep)", "de_value", setup, lambda V, r: (V.check("error", err(V, r)), V.check("length left", eq(left(V, V.B.h), V.B.h.n, 64))), module="serde", contracts=CT(HOLD), nat=NAT)
def strlen():
    def setup(B): n = B.int("n", 64, 0, LIM); x = B.buf("s", n, 1, **({"at": lambda i: B.rng.choice((0, 1, 2, 3))} if B.native else {})); B.h = (n, x); return [x, n]
    def post(V, r):
        n, x = V.B.h; V.check("range", And(S.icmp("sge", r, 0, 64), sle(r, n, 64))); V.forall("not before", 0, r, lambda k: V.check("not before", S.icmp("ne", x.at(k), 0, 8)))
        V.case(slt(r, n, 64), lambda: V.check("zero", eq(x.at(r), 0, 8)))
    return Inst("str_len", "str_len", setup, post, module="string")
def istab():
    """de_is_table(names, columns)"""
    def setup(B):
        x = B.h = X(); r = B.rng if B.native else None
        if B.native:
            m, n = r.choice((0, 1, 2, 3)), r.choice((0, 1, 2, 3)); n = m if r.random() < 0.7 else n; k = r.choice((0, 1, 4))
            cs = [B.vec("c%d" % i, r.choice(ATOMS), k if r.random() < 0.8 else 2) if r.random() < 0.9 else B.atom("c%d" % i, "I64") for i in range(n)]
            x.names = B.vec("names", r.choice(("SYMBOL", "SYMBOL", "SYMBOL", "I64")), m, at=lambda i: 1); x.cols = B.vec("cols", r.choice(("LIST", "LIST", "LIST", "I64")), n, at=lambda i: cs[i].p); x.cs = cs; x.tn, x.tc = CODE[x.names.tp], CODE[x.cols.tp]
        else:
            m, n = B.int("m", 64, 0, LIM), B.int("n", 64, 0, LIM); x.tn, x.tc = B.int("tn", 8), B.int("tc", 8)
            x.names = B.struct("names", 16, {2: (1, x.tn), 8: (8, m)}); x.cols = B.vec("cols", "LIST", n, code=0); x.cols.p.r.init.cells[2] = (1, x.tc)
        x.m, x.n = m, n; return [x.names, x.cols]
    def post(V, r):
        x = V.B.h; head = And(eq(x.tn, CODE["SYMBOL"], 8), eq(x.tc, 0, 8), Or(eq(x.m, x.n, 64), eq(x.n, 0, 64)))
        if V.native:
            cnt = [(h.n if h.n is not None else None) for h in x.cs]; V.check("a table", (r != 0) == bool(head and None not in cnt and len(set(cnt)) <= 1)); return
        el = x.cols.at; g = lambda i: And(S.icmp("sge", OB(1, add(el(i), 2, 64)), 0, 8), eq(CNT(el(i)), CNT(el(0)), 64))
        V.case(S.icmp("ne", r, 0, 8), lambda: (V.check("header", head), V.forall("columns", 0, x.n, lambda k: V.check("columns", g(k)))))
        def no():
            u = z3.BitVec("u_tab", 64); V.st.facts.append(Fact(u, 0, x.n, g(u))); V.st.assume(head); V.use(0); V.check("not a table", False)
        V.case(eq(r, 0, 8), no)
    return Inst("de_is_table", "de_is_table", setup, post, module="serde", contracts={"ops_count": c_opcount}, opts=dict(opaque=True), nat=NAT)
PREFIX = 0xcefadefa
def deobj():
    """de_obj(bytes): a complete message with our prefix, a version that is not newer and its exact size: what de_raw makes of the payload; anything else is an error"""
    ver = lambda e: e
    def c_deraw(e, st, a, ins):
        """de_raw(buf, len): as de_value"""
        L = e.read(st, a[1].r, a[1].o, 8); e.check(st, S.icmp("sge", L, 0, 64), "de_raw:length"); rng(e, st, a[0], L, "de_raw"); st.ghost["raw"] = (a[0], L); return [(st, Ptr(None, z3.BitVec("result", 64)))]
    def setup(B):
        x = B.h = X()
        if B.native:
            r = B.rng; p = body(B, r.choice([-1, -5, -10, 1, 5, 9, 10, 0, 98, 99, 12]) & 255, None); sz = len(p) + (r.choice((-1, 1, 1 << 62, -16)) if r.random() < 0.2 else 0)
            bs = (PREFIX if r.random() < 0.9 else 5).to_bytes(4, "little") + bytes([r.choice((0, 0, 255)), 0, 0, 0]) + (sz & mask(64)).to_bytes(8, "little") + p
            if r.random() < 0.2: bs = bs[:r.randint(0, 20)]
            x.bs = bs; x.n = len(bs); x.o = B.vec("x", "U8", x.n, at=lambda i: bs[i])
        else:
            x.n = B.int("n", 64, 0, 1 << 34); x.o = B.vec("x", "U8", x.n); c = x.o.p.r.init.cells; x.pre, x.ver, x.size = z3.BitVec("prefix", 32), z3.BitVec("version", 8), z3.BitVec("size", 64)
            c[16] = (4, x.pre); c[20] = (1, x.ver); c[24] = (8, x.size)
        return [x.o]
    def post(V, r):
        x = V.B.h
        if V.native:
            ok = x.n >= 16 and x.bs[:4] == PREFIX.to_bytes(4, "little") and x.bs[4] == 0 and int.from_bytes(x.bs[8:16], "little") == x.n - 16
            V.check("error", ok or err(V, r)); V.check("well-formed", err(V, r) or wellformed(V, r)); return
        ok = And(S.icmp("sge", x.n, 16, 64), eq(x.pre, PREFIX, 32), eq(x.size, sub(x.n, 16, 64), 64)); g = V.st.ghost.get("raw")
        if g is None: V.check("error", V.iserr(r)); V.case(And(ok, eq(x.ver, 0, 8), S.icmp("sle", x.size, 10**9, 64)), lambda: V.check("accepted", False))
        else: V.check("header", ok); V.check("payload", And(eq(g[0].o, 32, 64), eq(g[1], x.size, 64))); V.check("result", isinstance(r, Ptr) and r.r is None and eq(r.o, z3.BitVec("result", 64), 64))
    return Inst("de_obj", "de_obj", setup, post, module="serde", contracts={"de_raw": c_deraw}, nat=NAT)
def deraw():
    def c(e, st, a, ins):
        e.check(st, eq(a[2], 0, 64), "de_value:depth"); st.ghost["raw"] = a; return [(st, Ptr(None, z3.BitVec("result", 64)))]
    def setup(B):
        x = B.h = X(); x.n = B.int("n", 64, 0, LIM); bs = body(B, B.rng.randrange(256), None) if B.native else None
        if B.native: x.n = len(bs)
        x.buf = B.buf("in", x.n, 1, **({"at": lambda i: bs[i]} if B.native else {})); x.len = B.struct("len", 8, {0: (8, x.n)}); return [x.buf, x.len]
    def post(V, r):
        x = V.B.h
        if V.native: rest(V, x, r); return
        g = V.st.ghost.get("raw"); V.check("decodes", g is not None and g[0].r is x.buf.p.r and And(eq(g[0].o, 0, 64), g[1].r is x.len.p.r) and isinstance(r, Ptr) and eq(r.o, z3.BitVec("result", 64), 64))
    return Inst("de_raw", "de_raw", setup, post, module="serde", contracts={"de_value": c}, nat=NAT)
# ---- C14: reading back what was written (atoms and vectors: the instances above, whose element-by-element post is the inverse of ser_raw's)
def rt(tp):
    t = CODE[tp] if tp[0] != "-" else -CODE[tp[1:]]
    def setup(B):
        x = B.h = X()
        if B.native:
            x.o = D.value(B, tp); x.bytes = x.o.bytes; x.n = len(x.bytes); x.buf = B.buf("in", x.n, 1, at=lambda i: x.bytes[i]); x.len = B.struct("len", 8, {0: (8, x.n)}); return [x.buf, x.len, 0]
        HOLD.clear(); HOLD.update(rt=1, depth=0, parts=tp in ("TABLE", "DICT", "LAMBDA")); e = B.e; e.hold = HOLD; e.contracts.update(CT(HOLD)); x.m = m = B.int("m", 64, 0, 10**9) if tp in ("LIST", "SYMBOL") else 1 if tp == "-SYMBOL" else 2
        arr = z3.Function("part", B64, B64); el = lambda k: arr(S.bv(k, 64)); x.el = el
        psize = (lambda v: SIZE(S.bv(v, 64))) if tp.strip("-") != "SYMBOL" else (lambda v: norm(add(SLEN(S.bv(v, 64)), 1, 64)))
        HOLD["o0"] = 10 if tp in ("LIST", "SYMBOL") else 1 if tp == "-SYMBOL" else 2
        if HOLD["parts"]:
            B.assume(And(*[And(S.icmp("sge", SIZE(el(k)), 1, 64), slt(SIZE(el(k)), 1 << 38, 64)) for k in (0, 1)]))
            SP = lambda k: 0 if k == 0 else SIZE(el(0)); HOLD["SP"] = SP; HOLD["el"] = el; total = add(SIZE(el(0)), SIZE(el(1)), 64)
            HOLD["part"] = lambda e, st, buf: 0 if S.isc(norm(buf.o)) else 1
            ty = lambda k: OB(1, add(el(k), 2, 64)); B.assume(ISTAB(el(0), el(1)) if tp == "TABLE" else eq(ty(0), CODE["SYMBOL"], 8) if tp == "LAMBDA" else And(S.icmp("sge", ty(0), 0, 8), S.icmp("sge", ty(1), 0, 8)))
        elif tp == "-SYMBOL":
            HOLD.update(SP=lambda k: 0, el=el); B.assume(And(S.icmp("sge", SLEN(el(0)), 0, 64), slt(SLEN(el(0)), 1 << 38, 64))); total = add(SLEN(el(0)), 1, 64)
        else:
            SP = D.prefix(B, HOLD, m, el, psize); total = SP(m); u = z3.BitVec("u_mono", 64)
            # as many bytes as parts are left at least (by induction from prefix's sizes >= 1)
            B.st.facts.append(Fact(u, 0, add(m, 1, 64), S.icmp("sge", sub(SP(m), SP(u), 64), sub(m, u, 64), 64)))
            if tp == "SYMBOL":
                v = z3.BitVec("u_txt", 64); B.st.facts.append(Fact(v, 0, m, S.icmp("sge", SLEN(el(v)), 0, 64)))
            B.e.hold = HOLD
        x.n = norm(add(HOLD["o0"], total, 64)); cells = {0: (1, t & 255), 1: (1, 0)} if tp != "-SYMBOL" else {0: (1, t & 255)}
        if tp in ("LIST", "SYMBOL"): cells[2] = (8, m)
        x.buf = Ptr(Region("in", x.n, Init(cells, [(0, 1, lambda i: z3.Function("bytes", B64, z3.BitVecSort(8))(S.bv(i, 64)), None)]), "buf", writable=False), 0); x.len = B.struct("len", 8, {0: (8, x.n)})
        return [x.buf, x.len, 0]
    def post(V, r):
        x = V.B.h; V.check("all bytes taken", eq(left(V, x), 0, 64))
        if V.native: V.check("the same value", not err(V, r) and reser(V, r) == x.bytes); return
        V.check("a value", not V.iserr(r))
        if HOLD["parts"]:
            g = V.st.ghost.get("made"); V.check("the same value", g is not None and g[0] == tp and And(eq(g[1], x.el(0), 64), eq(g[2], x.el(1), 64)))
        elif tp == "-SYMBOL": V.check("the same value", And(eq(V.typ(r), t & 255, 8), eq(V.av(r, 8), x.el(0), 64)))
        else:
            if r.r is None: V.check("a value", False); return
            V.check("type", eq(V.typ(r), t, 8)); V.check("count", eq(V.len(r), x.m, 64)); V.forall("part", 0, x.m, lambda k: V.check("part", eq(opq(V.el(r, k, 8)), x.el(k), 64)))
    return Inst("read back(%s)" % tp, "de_value", setup, post, module="serde", contracts=CT(HOLD), opts=dict(invs=[inv_len(HOLD)], opaque=True), nat=NAT, native=tp != "LAMBDA")
def opq(v): return v.o if isinstance(v, Ptr) else v
HOLD = {}
NAT = dict(runtime=True)
def instances(tier="quick"):
    return [atom(t) for t in ATOMS] + [vec(t) for t in ATOMS] + [other(t) for t in ("-SYMBOL", "SYMBOL", "LIST", "TABLE", "DICT", "LAMBDA", "UNARY", "BINARY", "VARY", "NULL", "ERR")] + \
        [bad(t) for t in (13, 20, 70, 77, 97, 104, 125, -13, -20, -98, -128)] + [empty(), deep(), strlen(), istab(), deobj(), deraw()]
def roundtrip(): return [rt(t) for t in ("SYMBOL", "-SYMBOL", "LIST", "TABLE", "DICT", "LAMBDA")] + [other("NULL")] + [atom(t) for t in ATOMS] + [vec(t) for t in ATOMS]
