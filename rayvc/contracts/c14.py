"""C14/C15: the serialized form.  A value of type T is: the type byte; for atoms the value; for vectors an attribute byte, the 8-byte count and the
elements (symbols as zero-terminated text, list elements as serialized values); for tables and dictionaries an attribute byte and two values.
SIZE(x), the size of a part x, is the callee contract of size_obj/ser_raw/de_value on the parts (induction on the depth of the value);
SP(k) is the number of bytes of the first k parts (SP(0)=0, SP(k+1)=SP(k)+SIZE(part k))."""
from spec import *
import sym as S, z3, ctypes
from sym import norm, conc, sgn
from contract import Inst, CODE, WIDTH, LIM
from engine import Ptr, Fact, Region, Init, Unsupported
import engine as E
from builtins_ir import rng
from contracts.c02 import cmp
FN = "de_value"
ATOMS = ("B8", "U8", "C8", "I16", "I32", "DATE", "TIME", "I64", "TIMESTAMP", "F64", "GUID")
B64 = z3.BitVecSort(64)
SLEN = z3.Function("symlen", B64, B64); SIZE = z3.Function("sersize", B64, B64); SPF = z3.Function("SP", B64, B64); FID = z3.Function("fnname", B64, B64)
TXT = [b"", b"a", b"ab", b"symbol", b"x" * 20]
def opaque(p): return S.bv(E_asint(p), 64)
def E_asint(p):
    if isinstance(p, Ptr):
        if p.r is None: return p.o
        raise Unsupported("an opaque object was expected")
    return p
def sz_ok(e, st, x): st.assume(And(S.icmp("sge", x, 0, 64), S.icmp("slt", x, 1 << 38, 64)))
# ---- callee contracts
def c_size(e, st, a, ins):
    """size_obj(part): SIZE(part), zero if it cannot be serialized"""
    v = SIZE(opaque(a[0])); sz_ok(e, st, v); return [(st, v)]
def c_symlen(e, st, a, ins):
    """symbol_strlen(id): the length of the symbol's text"""
    v = SLEN(S.bv(a[0], 64)); sz_ok(e, st, v); return [(st, v)]
def c_strsym(e, st, a, ins): return [(st, Ptr(None, a[0]))]
def c_fid(e, st, a, ins): return [(st, FID(S.bv(Ptr2int(a[0]), 64)))]
def Ptr2int(p): return z3.BitVec("addr_" + p.r.name, 64) if isinstance(p, Ptr) and p.r is not None else E_asint(p)
def c_fname(e, st, a, ins):
    """env_get_internal_name(f): the text of env_get_internal_id(f)"""
    return [(st, Ptr(None, FID(S.bv(Ptr2int(a[0]), 64))))]
def put(e, st, d, n, what):
    """the callee writes n bytes at d"""
    if not (isinstance(d, Ptr) and d.r is not None): raise Unsupported("%s into nothing" % what)
    rng(e, st, d, n, what); e.check(st, d.r.writable, what + ":frame")
    e.nfresh += 1; e.push(st, d.r, E.H(d.o, n, "w%d" % e.nfresh))
def base(hold, d):
    """position of d relative to the first part"""
    return norm(sub(d.o, hold["o0"], 64))
def part(e, st, hold, d, src, what):
    """d is where the part src belongs"""
    t = hold.get("t")
    if t is None: hold.setdefault("seen", []).append((d, src)); return
    k = hold["k"](t) if "k" in hold else t
    e.check(st, eq(base(hold, d), hold["SP"](k), 64), what + ":position"); e.check(st, eq(src, hold["el"](k), 64), what + ":part")
def c_strcpy(hold):
    def c(e, st, a, ins):
        """str_cpy(dst, text of a symbol): copies the text and its terminator, returns its length"""
        i = opaque(a[1]); n = SLEN(i); sz_ok(e, st, n); put(e, st, a[0], norm(add(n, 1, 64)), "str_cpy"); part(e, st, hold, a[0], i, "str_cpy")
        return [(st, n)]
    return c
def c_ser(hold):
    def c(e, st, a, ins):
        """ser_raw(dst, part): writes SIZE(part) bytes, returns their number"""
        i = opaque(a[1]); n = SIZE(i); sz_ok(e, st, n); e.check(st, S.icmp("sgt", n, 0, 64), "ser_raw:serializable")
        put(e, st, a[0], n, "ser_raw"); part(e, st, hold, a[0], i, "ser_raw"); return [(st, n)]
    return c
def CT(hold): return {"size_obj": c_size, "symbol_strlen": c_symlen, "str_from_symbol": c_strsym, "str_cpy": c_strcpy(hold), "ser_raw": c_ser(hold),
                      "env_get_internal_id": c_fid, "env_get_internal_name": c_fname, "err_code": c_errcode, "err_msg": c_errmsg, "strlen": c_slen}
MSG = z3.BitVec("errmsg", 64); ECODE = z3.BitVec("errcode", 32); MLEN = z3.BitVec("errmsglen", 64)
def c_errcode(e, st, a, ins): return [(st, ECODE)]
def errtext(e):
    if getattr(e, "errtext", None) is None: e.errtext = Region("message", norm(add(MLEN, 1, 64)), Init({}, [(0, 1, E.word_array("message", 1), None)]), "buf", writable=False)
    return Ptr(e.errtext, 0)
def c_errmsg(e, st, a, ins): return [(st, errtext(e))]
def c_slen(e, st, a, ins):
    if a[0].r is not e.errtext: raise Unsupported("strlen")
    st.assume(And(S.icmp("sge", MLEN, 0, 64), S.icmp("slt", MLEN, 1 << 30, 64))); return [(st, MLEN)]
# ---- values
def symbols(B):
    B.text = {}; ids = []; B.lib.symbols_intern.restype = ctypes.c_int64
    for t in TXT:
        i = B.lib.symbols_intern(t, len(t)) & mask(64); B.text[i] = t; ids.append(i)
    return ids
def prefix(B, hold, n, el, size):
    """SP and its facts: defined by recurrence; as no part has a negative size and the whole fits in memory, prefix sums are ordered"""
    SP = lambda k: SPF(S.bv(k, 64)); hold["SP"], hold["el"] = SP, el
    u = z3.BitVec("u_SP", 64); s1 = size(el(u))
    B.assume(eq(SP(0), 0, 64)); B.assume(And(S.icmp("sge", SP(n), 0, 64), slt(SP(n), 1 << 38, 64)))
    B.st.facts.append(Fact(u, 0, n, And(eq(SP(norm(add(u, 1, 64))), add(SP(u), s1, 64), 64), S.icmp("sge", SP(u), 0, 64), S.icmp("sge", s1, 1, 64), slt(s1, 1 << 38, 64), sle(add(SP(u), s1, 64), SP(n), 64))))
    return SP
def inv_sp(hold):
    """loop invariants: a byte counter is SP of the iteration"""
    def f(e, sm, t):
        hold["t"] = sm.t; out = []
        for v in sm.vars:
            if v.isptr or v.w != 64 or v.kind != "general" or "SP" not in hold: continue
            c = sm.cur(v, t)
            out.append(eq(c, add(v.init, hold["SP"](t), 64), 64)); out.append(eq(c, sub(v.init, hold["SP"](t), 64), 64))
        return out
    return f
def val(B, tp, name="x"):
    """(object, bytes) of a random value, natively"""
    w = WIDTH[tp.strip("-")]; a = tp[0] == "-"
    if a: o = B.vec(name, "GUID", 1, code=-CODE["GUID"]) if tp == "-GUID" else B.atom(name, tp[1:]); return o, bytes([-CODE[tp[1:]] & 255]) + ((o.at(0) if tp == "-GUID" else o.v) & mask(8 * w)).to_bytes(w, "little")
    n = B.rng.choice((0, 1, 2, 5)); o = B.vec(name, tp, n)
    return o, bytes([CODE[tp], 0]) + n.to_bytes(8, "little") + b"".join((o.at(i) & mask(8 * w)).to_bytes(w, "little") for i in range(n))
PARTS = ["-" + t for t in ATOMS] + list(ATOMS)
def nested(B, tp, name="x"):
    """LIST, TABLE, DICT of random parts, natively"""
    if tp == "LIST": n = B.rng.choice((0, 1, 2, 3, 7))
    else: n = 2
    if tp == "TABLE":
        ids = symbols(B); m = B.rng.choice((0, 1, 3)); names = B.vec(name + ".names", "SYMBOL", m, at=lambda i: B.rng.choice(ids))
        nb = bytes([6, 0]) + m.to_bytes(8, "little") + b"".join(B.text[names.at(i)] + b"\0" for i in range(m))
        rows = B.rng.choice((0, 1, 4)); cs = []
        for i in range(m):
            t = B.rng.choice(ATOMS); o = B.vec("%s.c%d" % (name, i), t, rows); w = WIDTH[t]
            cs.append((o, bytes([CODE[t], 0]) + rows.to_bytes(8, "little") + b"".join((o.at(k) & mask(8 * w)).to_bytes(w, "little") for k in range(rows))))
        l = B.vec(name + ".cols", "LIST", m, at=lambda i: cs[i][0].p); ps = [(names, nb), (l, bytes([0, 0]) + m.to_bytes(8, "little") + b"".join(c[1] for c in cs))]
    else: ps = [val(B, B.rng.choice(PARTS if tp == "LIST" else list(ATOMS)), "%s.%d" % (name, i)) for i in range(n)]
    B.keepparts = ps
    o = B.vec(name, tp, n, w=8, at=lambda i: ps[i][0].p)
    hd = bytes([CODE[tp], 0]) + (n.to_bytes(8, "little") if tp == "LIST" else b"")
    return o, hd + b"".join(p[1] for p in ps), ps
class X: pass
def value(B, tp):
    """the value to serialize: x.o, its size x.sz, x.hold"""
    x = X(); x.hold = HOLD; HOLD.clear(); a = tp[0] == "-"; t = tp.strip("-"); x.bytes = None; nat = B.native
    if nat: HOLD["native"] = 1
    if tp == "NULL":
        x.o = B.nullobj(); x.sz = 1; x.bytes = b"\x7e"
    elif tp == "ERR":
        x.o = B.struct("err", 16, {2: (1, 127), 8: (8, B.int("ctx", 64))})
        B.assume(S.icmp("sge", MLEN, 0, 64)); B.assume(slt(MLEN, 1 << 30, 64)); x.sz = add(10, If(eq(ECODE, EC_USER, 32), add(MLEN, 1, 64), 0, 64), 64)
    elif tp in ("LAMBDA",):
        c = {24: (8, Ptr(None, z3.BitVec("args", 64))), 32: (8, Ptr(None, z3.BitVec("body", 64))), 2: (1, CODE[tp])}
        x.o = B.struct("fn", 80, c); p = [z3.BitVec("args", 64), z3.BitVec("body", 64)]; x.parts = p
    elif tp in ("UNARY", "BINARY", "VARY"):
        x.o = B.struct("fn", 16, {2: (1, CODE[tp])}); i = FID(z3.BitVec("addr_fn", 64)); n = SLEN(i); B.assume(And(S.icmp("sge", n, 0, 64), slt(n, 1 << 38, 64)))
        x.sz = add(n, 2, 64); HOLD.update(o0=1, SP=lambda k: 0, el=lambda k: i, t=0)
    elif tp in ("TABLE", "DICT"):
        if nat: x.o, x.bytes, ps = nested(B, tp)
        else: x.o = B.vec("x", tp, 2, w=8); x.parts = [x.o.at(0), x.o.at(1)]
    elif t == "SYMBOL" and a:
        if nat: ids = symbols(B); x.o = B.atom("x", t, val=B.choice("x", ids)); x.bytes = b"\xfa" + B.text[x.o.v] + b"\0"
        else: x.o = B.atom("x", t); n = SLEN(x.o.v); B.assume(And(S.icmp("sge", n, 0, 64), slt(n, 1 << 38, 64))); HOLD.update(o0=1, SP=lambda k: 0, el=lambda k: x.o.v, t=0)
        x.sz = add(len(B.text[x.o.v]) if nat else n, 2, 64)
    elif t == "GUID" and a: x.o = B.vec("x", "GUID", 1, code=-CODE["GUID"]); x.sz = 17
    elif a: x.o = B.atom("x", t); x.sz = 1 + WIDTH[t]
    elif t == "SYMBOL":
        if nat: ids = symbols(B); x.o = B.vec("x", t, B.int("n", 64, 0, LIM), at=lambda i: B.rng.choice(ids)); x.bytes = b"\6\0" + x.o.n.to_bytes(8, "little") + b"".join(B.text[x.o.at(i)] + b"\0" for i in range(x.o.n))
        else: x.o = B.vec("x", t, B.int("n", 64, 0, 1 << 34)); x.psize = lambda v: norm(add(SLEN(S.bv(v, 64)), 1, 64)); HOLD.update(o0=10); SP = prefix(B, HOLD, x.o.n, x.o.at, x.psize); x.sz = add(10, SP(x.o.n), 64)
    elif t == "LIST":
        if nat: x.o, x.bytes, ps = nested(B, tp)
        else: x.o = B.vec("x", t, B.int("n", 64, 0, 1 << 34)); x.psize = lambda v: SIZE(S.bv(v, 64)); HOLD.update(o0=10); SP = prefix(B, HOLD, x.o.n, x.o.at, x.psize); x.sz = add(10, SP(x.o.n), 64)
    else:
        n = B.int("n", 64, 0, 1 << 34); x.o = B.vec("x", t, n) if t != "GUID" or nat else B.vec("x", t, n, w=1, cap=mul(n, 16, 64)); x.sz = add(10, mul(x.o.n, WIDTH[t], 64), 64)
    if hasattr(x, "parts"):
        p = [SIZE(S.bv(v, 64)) for v in x.parts]
        for v in p: B.assume(And(S.icmp("sgt", v, 0, 64), slt(v, 1 << 38, 64)))
        HOLD.update(o0=2); x.sz = add(2, add(p[0], p[1], 64), 64); x.ps = p
    if nat and x.bytes is not None: x.sz = len(x.bytes)
    return x
HOLD = {}
EC_USER = 11
ALL = ["-" + t for t in ATOMS] + ["-SYMBOL"] + list(ATOMS) + ["SYMBOL", "LIST", "TABLE", "DICT", "LAMBDA", "UNARY", "BINARY", "VARY", "NULL", "ERR"]
SYMONLY = ("LAMBDA", "UNARY", "BINARY", "VARY", "ERR")
def nat(tp): return dict(native=tp not in SYMONLY, nat=dict(runtime=True) if tp.strip("-") in ("SYMBOL", "TABLE", "NULL") else None)
def size(tp):
    def setup(B):
        x = value(B, tp); B.h = x
        if not B.native: B.e.contracts.update(CT(HOLD))
        return [x.o]
    def post(V, r):
        x = V.B.h
        if not V.native and tp in ("SYMBOL", "LIST"): V.fold("size", r, 64, 10, lambda g, k: add(g, x.psize(x.o.at(k)), 64), x.o.n)
        else: V.check("size", eq(r, x.sz, 64))
    return Inst("size_obj(%s)" % tp, "size_obj", setup, post, module="serde", contracts={k: v for k, v in CT(HOLD).items() if k != "ser_raw"}, opts=dict(invs=[inv_sp(HOLD)]), **nat(tp))
def size_unser():
    """a list with a part that cannot be serialized (the k-th) cannot be serialized"""
    def setup(B):
        n = B.int("n", 64, 0, 1 << 34); k = B.int("k", 64, 0); B.assume(slt(k, n, 64)); x = B.vec("x", "LIST", n); B.assume(eq(SIZE(x.at(k)), 0, 64)); B.h = (k, x); B.e.contracts["size_obj"] = c_size; return [x]
    def post(V, r): V.use(V.B.h[0]); V.check("not serializable", eq(r, 0, 64))
    return Inst("size_obj(LIST,unserializable part)", "size_obj", setup, post, module="serde", contracts={"size_obj": c_size}, native=False)
def unser(tc):
    """other types: size zero"""
    def setup(B):
        x = B.struct("x", 16, {2: (1, tc)}); return [x]
    return Inst("size_obj(type %d)" % tc, "size_obj", setup, lambda V, r: V.check("not serializable", eq(r, 0, 64)), module="serde", native=False)
def ser(tp):
    def setup(B):
        x = value(B, tp); x.buf = B.buf("out", x.sz, 1, writable=True); B.h = x
        if not B.native: B.e.contracts.update(CT(HOLD))
        return [x.buf, x.o]
    def post(V, r):
        x = V.B.h; t = tp.strip("-"); b = x.buf.p
        V.check("bytes written", eq(r, x.sz, 64))
        if V.native and x.bytes is not None: V.check("bytes", bytes(ctypes.string_at(b, len(x.bytes))) == x.bytes); return
        V.check("type", eq(V.rd(b, 0, 1), (-CODE[t] if tp[0] == "-" else CODE[t]) & 255, 8))
        if tp[0] == "-" and t in ATOMS:
            w = WIDTH[t]
            if t == "GUID":
                for k in (0, 8): V.check("value", eq(V.rd(b, 1 + k, 8), V.rd(x.o.p, 16 + k, 8), 64))
            else: V.check("value", eq(V.rd(b, 1, w), x.o.v, 8 * w))
        elif tp in ATOMS or tp in ("SYMBOL", "LIST"):
            V.check("count", eq(V.rd(b, 2, 8), x.o.n, 64))
            if t in ATOMS:
                w = WIDTH[t]
                if t == "GUID": V.forall("elem", 0, mul(x.o.n, 16, 64), lambda k: V.check("elem", eq(V.rd(b, norm(add(10, k, 64)), 1), V.rd(x.o.p, norm(add(16, k, 64)), 1), 8)))
                else: V.forall("elem", 0, x.o.n, lambda k: V.check("elem", eq(V.rd(b, norm(add(10, mul(k, w, 64), 64)), w), x.o.at(k), 8 * w)))
        elif t in ("TABLE", "DICT", "LAMBDA"):
            l = HOLD.get("seen", [])
            V.check("two parts, in order", len(l) == 2 and And(eq(l[0][0].o, 2, 64), eq(l[0][1], x.parts[0], 64), eq(l[1][0].o, add(2, x.ps[0], 64), 64), eq(l[1][1], x.parts[1], 64)))
    return Inst("ser_raw(%s)" % tp, "ser_raw", setup, post, module="serde", contracts=CT(HOLD), opts=dict(invs=[inv_sp(HOLD)], keep={"out": 10} if tp in ("SYMBOL", "LIST") else {}), **nat(tp))
def serobj():
    """ser_obj: a byte vector of the header and exactly SIZE(x) bytes; an error for what cannot be serialized"""
    N = z3.BitVec("total", 64)
    def c_sz(e, st, a, ins): return [(st, N)]
    def c_sr(e, st, a, ins):
        put(e, st, a[0], N, "ser_raw"); st.ghost["at"] = a[0].o; return [(st, N)]
    def setup(B):
        x = B.h = X()
        if B.native:
            tp = B.rng.choice(["-" + t for t in ATOMS] + list(ATOMS) + ["LIST", "TABLE", "DICT"]); y = nested(B, tp) if tp in ("LIST", "TABLE", "DICT") else val(B, tp); x.o, x.bytes = y[0], y[1]
        else: x.o = B.struct("x", 16, {}, writable=False); B.assume(And(S.icmp("sge", N, 0, 64), slt(N, 1 << 38, 64)))
        return [x.o]
    def post(V, r):
        x = V.B.h; n = len(x.bytes) if V.native else N
        def yes():
            V.check("type", eq(V.typ(r), CODE["U8"], 8)); V.check("size", eq(V.len(r), add(n, 16, 64), 64)); V.check("header", And(eq(V.rd(r, 16, 4), 0xcefadefa, 32), eq(V.rd(r, 24, 8), n, 64)))
            if V.native: V.check("bytes", ctypes.string_at(r + 32, n) == x.bytes)
            else: V.check("payload", eq(V.st.ghost.get("at", 0), 32, 64))
        if V.native: yes(); return
        V.case(eq(N, 0, 64), lambda: V.check("error", V.iserr(r))); V.case(S.icmp("ne", N, 0, 64), lambda: V.check("value", not V.iserr(r)) if V.iserr(r) else yes())
    return Inst("ser_obj", "ser_obj", setup, post, module="serde", contracts={"size_obj": c_sz, "ser_raw": c_sr}, nat=dict(runtime=True))
def strcpy():
    """str_cpy: copies the text up to and including the terminator, returns its length"""
    def setup(B):
        n = B.int("n", 64, 0, LIM)
        if B.native: s = bytes(B.rng.choice(b"ab\xff") for _ in range(n)) + b"\0"; t = B.buf("src", n + 1, 1, at=lambda i: s[i])
        else:
            t = B.buf("src", norm(add(n, 1, 64)), 1); u = z3.BitVec("u_src", 64); B.st.facts.append(Fact(u, 0, n, S.icmp("ne", t.arr(u), 0, 8))); B.assume(eq(t.arr(n), 0, 8))
        d = B.buf("dst", norm(add(n, 1, 64)), 1, writable=True); B.h = (n, t, d); return [d, t]
    def post(V, r):
        n, t, d = V.B.h; V.check("length", eq(r, n, 64)); V.forall("copied", 0, norm(add(n, 1, 64)), lambda k: V.check("copied", eq(V.bel(d.p, k, 1), t.at(k), 8)))
        if not V.native: V.use(n)
    return Inst("str_cpy", "str_cpy", setup, post, module="string")
def instances(tier="quick"):
    from contracts import c15
    return [size(t) for t in ALL] + [size_unser()] + [unser(t) for t in (20, 70, 71, 77, 103 + 1)] + [ser(t) for t in ALL] + [serobj(), strcpy()] + c15.roundtrip()
