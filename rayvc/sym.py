"""Symbolic values: python ints / bools when concrete, z3 terms otherwise; linear normal forms; prover."""
import z3, time, struct, math
from z3 import BitVecVal, BitVec, BoolVal, is_bv, is_bool

def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

def bv(v, w):
    """to z3"""
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return BitVecVal(v, w)
    return v
def zb(c): return BoolVal(c) if isinstance(c, bool) else c

def conc(e):
    """z3 numeral -> python"""
    if isinstance(e, (int, bool)): return e
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e

def isc(*vs): return all(isinstance(v, (int, bool)) for v in vs)

def And(*cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs): return False
    if not cs: return True
    return cs[0] if len(cs) == 1 else z3.And(*cs)
def Or(*cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs): return True
    if not cs: return False
    return cs[0] if len(cs) == 1 else z3.Or(*cs)
def Not(c):
    if isinstance(c, bool): return not c
    if z3.is_not(c): return c.arg(0)
    return z3.Not(c)
def Implies(a, b):
    if a is True: return b
    if a is False or b is True: return True
    return z3.Implies(zb(a), zb(b))
def If(c, a, b, w=None):
    if isinstance(c, bool): return a if c else b
    if isc(a) and isc(b) and a == b and type(a) == type(b): return a
    if w == 1 or isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and is_bool(a)) or (not isc(b) and is_bool(b)):
        a, b = (bool(a) if isinstance(a, int) else a), (bool(b) if isinstance(b, int) else b)
        if a is True and b is False: return c
        if a is False and b is True: return Not(c)
        if isc(a) and isc(b): return a
        return z3.If(c, zb(a), zb(b))
    if w is None: w = a.size() if is_bv(a) else b.size()
    x, y = bv(a, w), bv(b, w)
    return x if x.eq(y) else z3.If(c, x, y)

# ------------------------------------------------------------------ float ops on bit patterns
D2B = lambda d: struct.unpack("<Q", struct.pack("<d", d))[0]
B2D = lambda b: struct.unpack("<d", struct.pack("<Q", b & mask(64)))[0]
BV64S = z3.BitVecSort(64)
UF = {}
def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in UF: UF[k] = z3.Function(name, *sorts)
    return UF[k]
FBIN = ("fadd", "fsub", "fmul", "fdiv", "frem")
def c_fbin(op, a, b):
    x, y = B2D(a), B2D(b)
    try:
        if op == "fadd": r = x + y
        elif op == "fsub": r = x - y
        elif op == "fmul": r = x * y
        elif op == "fdiv":
            if y == 0:
                if x == 0 or x != x: r = float("nan")
                else: r = math.copysign(float("inf"), x) * math.copysign(1.0, y)
            else: r = x / y
        else: r = math.fmod(x, y) if y != 0 else float("nan")
    except OverflowError: r = float("inf")
    return D2B(r)
def fbin(op, a, b):
    if isc(a, b): return c_fbin(op, a, b)
    na, nb = fneg_of(a), fneg_of(b)
    # sign symmetry of IEEE operations (exact up to the sign of NaN)
    if op in ("fmul", "fdiv") and (na is not None or nb is not None):
        r = fbin(op, a if na is None else na, b if nb is None else nb)
        return r if (na is not None) == (nb is not None) else fneg(r)
    if op == "fadd" and nb is not None: return fbin("fsub", a, nb)
    if op == "fadd" and na is not None: return fbin("fsub", b, na)
    if op == "fsub" and nb is not None: return fbin("fadd", a, nb)
    a, b = bv(a, 64), bv(b, 64)
    if op in ("fadd", "fmul") and (a.hash(), a.get_id()) > (b.hash(), b.get_id()): a, b = b, a
    return uf(op, BV64S, BV64S, BV64S)(a, b)
def fneg(v):
    if isc(v): return v ^ (1 << 63)
    n = fneg_of(v)
    return n if n is not None else v ^ BitVecVal(1 << 63, 64)
def fneg_of(v):
    if isc(v): return None
    if z3.is_app_of(v, z3.Z3_OP_BXOR) and v.num_args() == 2:
        for i in (0, 1):
            if z3.is_bv_value(v.arg(i)) and v.arg(i).as_long() == 1 << 63: return v.arg(1 - i)
    return None
def f_isnan(a):
    if isc(a): return B2D(a) != B2D(a)
    return z3.And((a & 0x7FF0000000000000) == 0x7FF0000000000000, (a & 0x000FFFFFFFFFFFFF) != 0)
def f_key(a):
    """monotone map to signed order for non-NaN, with -0 == +0"""
    neg = z3.Extract(63, 63, a) == 1
    mag = a & 0x7FFFFFFFFFFFFFFF
    return z3.If(neg, -mag, mag)
def fcmp(pred, a, b):
    if isc(a, b):
        x, y = B2D(a), B2D(b); u = x != x or y != y
        base = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}
        if pred == "ord": return not u
        if pred == "uno": return u
        if pred in ("true", "false"): return pred == "true"
        p = pred[1:]
        if pred[0] == "o": return (not u) and base[p]
        return u or base[p]
    a, b = bv(a, 64), bv(b, 64)
    u = Or(f_isnan(conc(a)), f_isnan(conc(b)))
    if pred == "ord": return Not(u)
    if pred == "uno": return u
    ka, kb = f_key(a), f_key(b)
    p = pred[1:]
    r = {"eq": ka == kb, "ne": ka != kb, "lt": ka < kb, "le": ka <= kb, "gt": ka > kb, "ge": ka >= kb}[p]
    return And(Not(u), r) if pred[0] == "o" else Or(u, r)

def c_itof(v, w, signed): return D2B(float(sgn(v, w) if signed else v))
def itof(v, w, signed):
    """int -> double: uninterpreted over the 64-bit extended value (so i32->f64 == i64->f64 of the same value)"""
    if isc(v): return c_itof(v, w, signed)
    if w < 64: v = z3.SignExt(64 - w, v) if signed else z3.ZeroExt(64 - w, v); signed = True
    return uf("sitofp" if signed else "uitofp", BV64S, BV64S)(v)
def c_ftoi(v, w, signed):
    d = B2D(v)
    if d != d or math.isinf(d): return 1 << (w - 1)
    i = int(d)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
    if not lo <= i <= hi: return 1 << (w - 1)
    return i & mask(w)
def ftoi(v, w, signed):
    if isc(v): return c_ftoi(v, w, signed)
    return uf("fpto%si%d" % ("s" if signed else "u", w), BV64S, z3.BitVecSort(w))(v)
def funary(name, v):
    if isc(v):
        d = B2D(v)
        if d != d: return D2B(d)
        if math.isinf(d): return D2B(d if name != "sqrt" or d > 0 else float("nan"))
        return D2B({"floor": lambda: float(math.floor(d)), "ceil": lambda: float(math.ceil(d)),
                    "sqrt": lambda: math.sqrt(d) if d >= 0 else float("nan"), "trunc": lambda: float(math.trunc(d)),
                    "round": lambda: math.copysign(math.floor(abs(d) + 0.5), d)}.get(name, lambda: float("nan"))())
    return uf("f_" + name, BV64S, BV64S)(v)

# ------------------------------------------------------------------ integer ops
def binop(op, a, b, w):
    if op in FBIN: return fbin(op, a, b)
    if w == 1:
        if op == "and": return And(a, b)
        if op == "or": return Or(a, b)
        if op in ("xor", "add", "sub"):
            if isc(a, b): return bool(a) != bool(b)
            if isc(a): return Not(b) if a else b
            if isc(b): return Not(a) if b else a
            return z3.Xor(a, b)
        raise ValueError("i1 " + op)
    m = mask(w)
    if isc(a, b):
        if op == "add": return (a + b) & m
        if op == "sub": return (a - b) & m
        if op == "mul": return (a * b) & m
        if op == "and": return a & b
        if op == "or": return a | b
        if op == "xor": return a ^ b
        if op == "shl": return (a << b) & m if b < w else 0
        if op == "lshr": return a >> b if b < w else 0
        if op == "ashr": return (sgn(a, w) >> min(b, w - 1)) & m
        if b == 0: return 0
        if op == "udiv": return a // b
        if op == "urem": return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        if op == "sdiv": return q & m
        if op == "srem": return (x - q * y) & m
        raise ValueError(op)
    # light identities
    if op in ("add", "or", "xor") and isc(a) and a == 0: return b
    if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr") and isc(b) and b == 0: return a
    if op == "mul":
        if isc(a): a, b = b, a
        if isc(b):
            if b == 0: return 0
            if b == 1: return a
    if op == "and":
        if isc(a): a, b = b, a
        if isc(b):
            if b == 0: return 0
            if b == m: return a
    if op in ("sdiv", "udiv") and isc(b) and b == 1: return a
    x, y = bv(a, w), bv(b, w)
    if op == "add": return x + y
    if op == "sub": return x - y
    if op == "mul": return x * y
    if op == "and": return x & y
    if op == "or": return x | y
    if op == "xor":
        for p, q in ((x, y), (y, x)):
            # xor with a sign mask: conditional complement
            if w > 1 and z3.is_app(p) and p.decl().kind() == z3.Z3_OP_BASHR and z3.is_bv_value(p.arg(1)) and p.arg(1).as_long() >= w - 1:
                return If(p.arg(0) < 0, binop("sub", mask(w), norm(q), w), norm(q), w)
        return x ^ y
    if op == "shl": return x << y
    if op == "lshr": return z3.LShR(x, y)
    if op == "ashr": return x >> y
    if op == "sdiv": return x / y
    if op == "udiv": return z3.UDiv(x, y)
    if op == "srem": return z3.SRem(x, y)
    if op == "urem": return z3.URem(x, y)
    raise ValueError(op)

def icmp(pred, a, b, w):
    if w == 1:
        if isc(a, b): a, b = int(a), int(b)
        else:
            if pred == "eq": return Not(binop("xor", a, b, 1))
            if pred == "ne": return binop("xor", a, b, 1)
            a = int(a) if isc(a) else z3.If(a, BitVecVal(1, 1), BitVecVal(0, 1))
            b = int(b) if isc(b) else z3.If(b, BitVecVal(1, 1), BitVecVal(0, 1))
    if isc(a, b):
        if pred[0] == "s": a, b = sgn(a, w), sgn(b, w)
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred if pred in ("eq", "ne") else pred[1:]]
    if isc(a) != isc(b):
        q = ite_consts(b if isc(a) else a)
        if q:
            t, f = (icmp(pred, a, q[1], w), icmp(pred, a, q[2], w)) if isc(a) else (icmp(pred, q[1], b, w), icmp(pred, q[2], b, w))
            return If(q[0], t, f, 1)
    elif pred in ("eq", "ne"):
        q, p = ite_consts(a), ite_consts(b)
        if q and p and q[1] != q[2]:
            if q[1:] == p[1:]: return If(q[0], p[0], Not(p[0]), 1) if pred == "eq" else binop("xor", q[0], p[0], 1)
    x, y = bv(a, w), bv(b, w)
    if x.eq(y): return pred in ("eq", "sle", "sge", "ule", "uge")
    return {"eq": lambda: x == y, "ne": lambda: x != y, "slt": lambda: x < y, "sle": lambda: x <= y, "sgt": lambda: x > y,
            "sge": lambda: x >= y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "ugt": lambda: z3.UGT(x, y),
            "uge": lambda: z3.UGE(x, y)}[pred]()

def ite_consts(v):
    """If(c, const, const) -> (c, a, b)"""
    if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
        return v.arg(0), v.arg(1).as_long(), v.arg(2).as_long()
    return None
def slice_(v, lo, n, d=0):
    """bits [lo, lo+n) of v when they are bits of a sub-term or constant, else None"""
    if isc(v): return (v >> lo) & mask(n)
    w = v.size()
    if lo == 0 and n == w: return v
    if d > 24: return None
    k = v.decl().kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        i = v.arg(0); q = i.size()
        if lo + n <= q: return slice_(i, lo, n, d + 1)
        if k == z3.Z3_OP_ZERO_EXT:
            if lo >= q: return 0
            r = slice_(i, lo, q - lo, d + 1)
            return None if r is None else zext(r, q - lo, n)
        return None
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BAND):
        acc = 0 if k != z3.Z3_OP_BAND else mask(n); dif = None
        for a in v.children():
            r = slice_(conc(a), lo, n, d + 1)
            if r is None: return None
            if isc(r):
                acc = acc | r if k == z3.Z3_OP_BOR else acc ^ r if k == z3.Z3_OP_BXOR else acc & r
                continue
            if dif is not None: return None
            dif = r
        if dif is None: return acc
        if k == z3.Z3_OP_BAND: return 0 if acc == 0 else dif if acc == mask(n) else None
        return dif if acc == 0 else None
    if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(v.arg(1)):
        c = v.arg(1).as_long()
        if c >= w: return 0
        if k == z3.Z3_OP_BSHL:
            if lo + n <= c: return 0
            return slice_(conc(v.arg(0)), lo - c, n, d + 1) if lo >= c else None
        if lo + c >= w: return 0
        m = min(n, w - lo - c); r = slice_(conc(v.arg(0)), lo + c, m, d + 1)
        return None if r is None else zext(r, m, n) if m < n else r
    if k == z3.Z3_OP_EXTRACT: return slice_(v.arg(0), v.params()[1] + lo, n, d + 1) if True else None
    if k == z3.Z3_OP_CONCAT:
        pos = w
        for a in v.children():
            pos -= a.size()
            if lo >= pos and lo + n <= pos + a.size(): return slice_(conc(a), lo - pos, n, d + 1)
        return None
    if k == z3.Z3_OP_ITE:
        a, b = slice_(conc(v.arg(1)), lo, n, d + 4), slice_(conc(v.arg(2)), lo, n, d + 4)
        if a is None or b is None: return None
        return If(v.arg(0), a, b, n)
    if k == z3.Z3_OP_UNINTERPRETED: return z3.Extract(lo + n - 1, lo, v)
    return None
def trunc(v, w, to):
    if isc(v): return bool(v & 1) if to == 1 else v & mask(to)
    if to > 1:
        r = slice_(v, 0, to)
        if r is not None: return r
    q = ite_consts(v)
    if q: return If(q[0], trunc(q[1], w, to), trunc(q[2], w, to), to)
    if to == 1: return z3.Extract(0, 0, v) == 1
    if z3.is_app_of(v, z3.Z3_OP_SIGN_EXT) or z3.is_app_of(v, z3.Z3_OP_ZERO_EXT):
        i = v.arg(0)
        if i.size() == to: return i
        if i.size() > to: return z3.Extract(to - 1, 0, i)
        return z3.SignExt(to - i.size(), i) if z3.is_app_of(v, z3.Z3_OP_SIGN_EXT) else z3.ZeroExt(to - i.size(), i)
    return z3.Extract(to - 1, 0, v)
NARROW = {}   # id(trunc term) -> (term, wide): sext(term) == wide, justified by nsw increments
def sext(v, w, to):
    if w == to: return v
    if isc(v): return (sgn(int(v), w) & mask(to)) if w > 1 else (mask(to) if v else 0)
    if w == 1: return z3.If(v, BitVecVal(-1, to), BitVecVal(0, to))
    k = NARROW.get(v.get_id())
    if k is not None and k[0].eq(v) and to == 64: return k[1]
    if z3.is_app_of(v, z3.Z3_OP_SIGN_EXT): return z3.SignExt(to - v.arg(0).size(), v.arg(0))
    if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) and v.arg(0).size() < w: return z3.ZeroExt(to - v.arg(0).size(), v.arg(0))
    q = ite_consts(v)
    if q: return If(q[0], sext(q[1], w, to), sext(q[2], w, to), to)
    return z3.SignExt(to - w, v)
def zext(v, w, to):
    if isc(v): return int(v)
    if w == to: return v
    if w == 1: return z3.If(v, BitVecVal(1, to), BitVecVal(0, to))
    if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT): return z3.ZeroExt(to - v.arg(0).size(), v.arg(0))
    q = ite_consts(v)
    if q: return If(q[0], q[1], q[2], to)
    return z3.ZeroExt(to - w, v)

def extract_bytes(v, w, off, n):
    """bytes [off, off+n) of the w-byte little-endian value v"""
    if off == 0 and n == w: return v
    if isc(v): return (v >> (8 * off)) & mask(8 * n)
    return z3.Extract(8 * (off + n) - 1, 8 * off, v)
def concat_bytes(parts):
    """parts: list of (value, nbytes) low first"""
    if all(isc(p) for p, _ in parts):
        r, s = 0, 0
        for p, n in parts: r |= p << s; s += 8 * n
        return r
    ps = [bv(p, 8 * n) for p, n in parts]
    return z3.simplify(z3.Concat(*reversed(ps))) if len(ps) > 1 else ps[0]

# ------------------------------------------------------------------ linear normal forms
_LIN = {}
def lin(e):
    """BV expr -> (dict id->(atom, coef), const) modulo 2^w"""
    if isinstance(e, int): return {}, e
    k = e.get_id(); c = _LIN.get(k)
    if c is not None and c[0].eq(e): return c[1]
    w = e.size(); m = mask(w); r = None
    if z3.is_bv_value(e): r = ({}, e.as_long())
    elif z3.is_app(e):
        kd = e.decl().kind(); ch = e.children()
        if kd == z3.Z3_OP_BADD:
            d, c0 = {}, 0
            for x in ch: c0 = _acc(d, lin(x), 1, c0, m)
            r = (d, c0 & m)
        elif kd == z3.Z3_OP_BSUB:
            d, c0 = {}, 0
            for i, x in enumerate(ch): c0 = _acc(d, lin(x), 1 if i == 0 else -1, c0, m)
            r = (d, c0 & m)
        elif kd == z3.Z3_OP_BNEG:
            d = {}; c0 = _acc(d, lin(ch[0]), -1, 0, m); r = (d, c0 & m)
        elif kd == z3.Z3_OP_BMUL:
            l = [lin(x) for x in ch]; cs = [x for x in l if not x[0]]; ns = [x for x in l if x[0]]
            if len(ns) <= 1:
                f = 1
                for x in cs: f = f * x[1] & m
                d = {}; c0 = _acc(d, ns[0] if ns else ({}, 1), f, 0, m); r = (d, c0 & m)
        elif kd == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            d = {}; c0 = _acc(d, lin(ch[0]), 1 << ch[1].as_long(), 0, m) if ch[1].as_long() < w else 0; r = (d, c0 & m)
    if r is None: r = ({k: (e, 1)}, 0)
    if len(_LIN) > 400000: _LIN.clear()
    _LIN[k] = (e, r)
    return r
def _acc(d, l, f, c0, m):
    for k, (a, c) in l[0].items():
        n = ((d[k][1] if k in d else 0) + c * f) & m
        if n: d[k] = (a, n)
        else: d.pop(k, None)
    return c0 + l[1] * f
def unlin(l, w=64):
    d, c = l; m = mask(w)
    if not d: return c & m
    r = None
    for k in sorted(d):
        a, f = d[k]
        if f == 1: x = a
        elif f == m: x = -a if r is None else None
        else: x = a * BitVecVal(f, w)
        if x is None: r = r - a
        else: r = x if r is None else r + x
    if c & m: r = r + BitVecVal(c, w)
    return r
def norm(e):
    return e if isinstance(e, int) else conc(unlin(lin(e), e.size()))
def ldiff(a, b, w=64):
    """a-b as linear form"""
    d = {}; c = _acc(d, lin(a), 1, 0, mask(w)); c = _acc(d, lin(b), -1, c, mask(w))
    return d, c & mask(w)
def ldiv(l, s, w=64):
    """exact division of a linear form by constant s, or None"""
    d, c = l; m = mask(w); out = {}
    c = sgn(c, w)
    if c % s: return None
    for k, (a, f) in d.items():
        f = sgn(f, w)
        if f % s: return None
        out[k] = (a, (f // s) & m)
    return out, (c // s) & m

_CAN = {}
def canon(e):
    """rewrite 64-bit arguments of uninterpreted functions into linear normal form"""
    if not z3.is_expr(e): return e
    st = [e]
    while st:
        x = st[-1]; xi = x.get_id(); c = _CAN.get(xi)
        if c is not None and c[0].eq(x): st.pop(); continue
        if not z3.is_app(x) or x.num_args() == 0: _CAN[xi] = (x, x); st.pop(); continue
        ch = x.children(); todo = [y for y in ch if not (y.get_id() in _CAN and _CAN[y.get_id()][0].eq(y))]
        if todo: st.extend(todo); continue
        nch = [_CAN[y.get_id()][1] for y in ch]
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: nch = [bv(norm(y), 64) if is_bv(y) and y.size() == 64 else y for y in nch]
        if all(a.eq(b) for a, b in zip(ch, nch)): r = x
        elif x.decl().arity() == len(nch): r = x.decl()(*nch)
        else:
            kd = x.decl().kind()
            if kd == z3.Z3_OP_AND: r = z3.And(*nch)
            elif kd == z3.Z3_OP_OR: r = z3.Or(*nch)
            else:
                r = nch[0]
                for y in nch[1:]: r = x.decl()(r, y)
        if len(_CAN) > 400000: _CAN.clear(); _CAN[xi] = (x, r); return canon(e)
        _CAN[xi] = (x, r); st.pop()
    return _CAN[e.get_id()][1]

# ------------------------------------------------------------------ abstraction of hard arithmetic
HARD = {z3.Z3_OP_BSDIV: "sdiv", z3.Z3_OP_BUDIV: "udiv", z3.Z3_OP_BSREM: "srem", z3.Z3_OP_BUREM: "urem", z3.Z3_OP_BMUL: "mul",
        z3.Z3_OP_BSDIV_I: "sdiv", z3.Z3_OP_BUDIV_I: "udiv", z3.Z3_OP_BSREM_I: "srem", z3.Z3_OP_BUREM_I: "urem"}
_ABS = {}
def abstract(e):
    k = e.get_id(); c = _ABS.get(k)
    if c is not None and c[0].eq(e): return c[1]
    # iterative post-order
    st = [e]
    while st:
        x = st[-1]; xi = x.get_id()
        if xi in _ABS and _ABS[xi][0].eq(x): st.pop(); continue
        if not z3.is_app(x): _ABS[xi] = (x, x); st.pop(); continue
        ch = x.children(); todo = [y for y in ch if not (y.get_id() in _ABS and _ABS[y.get_id()][0].eq(y))]
        if todo: st.extend(todo); continue
        nch = [_ABS[y.get_id()][1] for y in ch]
        kd = x.decl().kind()
        if kd in HARD and x.size() >= 16 and len(nch) == 2 and not (kd == z3.Z3_OP_BMUL and any(z3.is_bv_value(y) for y in nch)):
            n = HARD[kd]; so = x.sort()
            if n == "mul": r = zbv(mulx(nch[0], nch[1]), x.size())
            else:
                r = uf("abs_%s%d" % (n, x.size()), so, so, so)(*nch)
        elif all(a is b or a.eq(b) for a, b in zip(ch, nch)): r = x
        else:
            kd2 = x.decl()
            if kd2.arity() != len(nch):  # n-ary and/or/add/...
                if kd == z3.Z3_OP_AND: r = z3.And(*nch)
                elif kd == z3.Z3_OP_OR: r = z3.Or(*nch)
                else:
                    r = nch[0]
                    for y in nch[1:]: r = kd2(r, y)
            else: r = kd2(*nch)
        if len(_ABS) > 400000: _ABS.clear()
        _ABS[xi] = (x, r); st.pop()
        if not st: return r
    return _ABS[k][1]

def zbv(v, w): return bv(v, w)
def mulx(a, b, depth=0):
    """product with distributed sums and conditionals; only products of two atoms stay (as an uninterpreted commutative function)"""
    w = a.size() if is_bv(a) else b.size(); m = mask(w)
    la, lb = lin(a), lin(b)
    if not la[0]: return unlin((lambda d: (d, _acc(d, lb, la[1], 0, m) & m))({}), w)
    if not lb[0]: return mulx(b, a)
    if len(la[0]) * len(lb[0]) > 12 or depth > 6: 
        if a.hash() > b.hash(): a, b = b, a
        so = a.sort(); return uf("abs_mul%d" % w, so, so, so)(a, b)
    tot = la[1] * lb[1] & m; r = BitVecVal(tot, w)
    for x, f in la[0].values():
        if lb[1]: r = r + x * BitVecVal(f * lb[1] & m, w)
    for y, g in lb[0].values():
        if la[1]: r = r + y * BitVecVal(g * la[1] & m, w)
    for x, f in la[0].values():
        for y, g in lb[0].values():
            r = r + atommul(x, y, w, depth) * BitVecVal(f * g & m, w)
    return bv(norm(r), w)
def atommul(x, y, w, depth):
    if z3.is_app_of(x, z3.Z3_OP_ITE): return z3.If(x.arg(0), bv(mulx(x.arg(1), y, depth + 1), w), bv(mulx(x.arg(2), y, depth + 1), w))
    if z3.is_app_of(y, z3.Z3_OP_ITE): return z3.If(y.arg(0), bv(mulx(y.arg(1), x, depth + 1), w), bv(mulx(y.arg(2), x, depth + 1), w))
    if (x.hash(), x.get_id()) > (y.hash(), y.get_id()): x, y = y, x
    so = x.sort(); return uf("abs_mul%d" % w, so, so, so)(x, y)
def hard_axioms(fs):
    """division axioms for the abstracted quotients and remainders occurring in fs"""
    out = []; seen = set(); st = list(fs); done = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x): continue
        st.extend(x.children())
        if x.decl().kind() != z3.Z3_OP_UNINTERPRETED or x.num_args() != 2: continue
        nm = x.decl().name()
        if not nm.startswith(("abs_sdiv", "abs_srem")): continue
        a, b = x.children(); k = (a.get_id(), b.get_id())
        if k in done: continue
        done.add(k); w = x.size(); so = x.sort()
        q, r = uf("abs_sdiv%d" % w, so, so, so)(a, b), uf("abs_srem%d" % w, so, so, so)(a, b)
        nz = b != 0
        out.append(z3.Implies(nz, a == bv(mulx(q, b), w) + r))
        out.append(z3.Implies(nz, z3.Or(r == 0, (r < 0) == (a < 0))))
        out.append(z3.Implies(b > 0, z3.And(r < b, r > -b)))
        out.append(z3.Implies(z3.And(b < 0, b != BitVecVal(1 << (w - 1), w)), z3.And(r > b, r < -b)))
        out.append(z3.Implies(z3.And(a >= 0, b > 0), z3.And(q >= 0, q <= a)))
    return out

def has_hard(es):
    seen = set(); st = list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() in HARD and x.size() >= 16 and not (x.decl().kind() == z3.Z3_OP_BMUL and any(z3.is_bv_value(y) for y in x.children())): return True
            st.extend(x.children())
    return False

# ------------------------------------------------------------------ prover
class Stats:
    def __init__(s): s.by = {}; s.queries = 0; s.t = 0.0; s.feas = 0; s.tfeas = 0.0
STATS = Stats()
def by(k): STATS.by[k] = STATS.by.get(k, 0) + 1

def check_sat(fs, timeout_ms):
    s = z3.Solver(); s.set("timeout", timeout_ms)
    for f in fs: s.add(zb(f))
    r = s.check()
    return r, s

_PC = {}; _PCK = []
def _ckey(fs): return frozenset(f.get_id() for f in fs)
def _cget(k, fs):
    v = _PC.get(k)
    return v[0] if v is not None else None
def _cput(k, fs, v):
    if len(_PC) > 60000: _PC.clear()
    _PC[k] = (v, fs)          # keeps the terms alive so that ids stay unique
SLOW = float(__import__("os").environ.get("RAYVC_SLOW", "0"))
def prove(assumps, goal, timeout_ms=20000):
    """-> ('proved', None) | ('failed', model) | ('unknown', None)"""
    goal = conc(goal)
    if goal is True: return "proved", None
    t0 = time.time(); STATS.queries += 1
    ng = zb(Not(goal)); how = "lia"
    asm = [zb(a) for a in assumps if a is not True]
    fs = asm + [ng]
    k = ("p", _ckey(fs)); c = _cget(k, fs)
    if c is not None: by("cache"); return c
    try:
        r = prove1(asm, ng, fs, timeout_ms)
        _cput(k, fs, r)
        return r
    finally:
        d = time.time() - t0; STATS.t += d
        if SLOW and d > SLOW: print("SLOW %.2f n=%d goal=%s" % (d, len(fs), str(goal)[:500].replace("\n", " ")))
FPD = {"fadd", "fsub", "fmul", "fdiv", "sitofp", "uitofp", "f_floor", "f_ceil", "f_sqrt", "f_trunc", "f_round"}
def fp_axioms(fs):
    """NaN propagation and sign/zero facts of the uninterpreted float operations occurring in fs"""
    out = []; seen = set(); st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x): continue
        st.extend(x.children())
        if x.decl().kind() != z3.Z3_OP_UNINTERPRETED or not x.num_args(): continue
        n = x.decl().name()
        if n not in FPD: continue
        a = x.arg(0)
        if n in ("fadd", "fmul") and not a.eq(x.arg(1)): out.append(x == x.decl()(x.arg(1), a))
        if n in ("fadd", "fsub", "fmul", "fdiv"): out.append(Implies(Or(f_isnan(a), f_isnan(x.arg(1))), f_isnan(x)))
        elif n == "sitofp": out += [Not(f_isnan(x)), (x == 0) == (a == 0), x != BitVecVal(1 << 63, 64), (x < 0) == (a < 0)]
        elif n == "uitofp": out += [Not(f_isnan(x)), (x == 0) == (a == 0), x >= 0]
        elif n != "f_sqrt": out.append(f_isnan(x) == f_isnan(a))
        else: out.append(Implies(f_isnan(a), f_isnan(x)))
    return out
def f_approx(t):
    """t = p*a + q up to an absolute error e, a an integer of magnitude <= M (float rounding bounds, also under reciprocal division)"""
    from fractions import Fraction as Q
    if z3.is_bv_value(t):
        d = B2D(t.as_long())
        return (None, Q(0), Q(d), Q(0), 0) if d == d and abs(d) < 1e300 else None
    if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED: return None
    n = t.decl().name()
    if n == "sitofp":
        a = t.arg(0)
        if a.decl().kind() == z3.Z3_OP_SIGN_EXT and a.arg(0).size() <= 32: return (a, Q(1), Q(0), Q(0), 1 << (a.arg(0).size() - 1))
        return None
    if n not in ("fadd", "fsub", "fmul", "fdiv"): return None
    x, y = f_approx(t.arg(0)), f_approx(t.arg(1))
    if x is None or y is None: return None
    a, p, q, e, M = x; b, p2, q2, e2, M2 = y
    if n in ("fadd", "fsub"):
        if a is not None and b is not None: return None
        sg = 1 if n == "fadd" else -1
        r = (a if a is not None else b, p + sg * p2, q + sg * q2, e + e2, max(M, M2))
    else:
        if n == "fmul" and a is None: x, y = y, x; a, p, q, e, M = x; b, p2, q2, e2, M2 = y
        if b is not None or q2 == 0: return None
        k = q2 if n == "fmul" else 1 / q2
        r = (a, p * k, q * k, e * abs(k), M)
    a, p, q, e, M = r
    e += (abs(p) * M + abs(q) + e) / (1 << 51) + Q(1, 1 << 60)
    return (a, p, q, e, M)
def int_axioms(f, memo={}):
    """bounds of fptosi(floor|ceil(linear)) in integers"""
    k = f.get_id(); r = memo.get(k)
    if r is not None: return r[0]
    if len(memo) > 300000: memo.clear()
    out = ()
    if z3.is_app(f):
        u = {}
        for c in f.children():
            for x in int_axioms(c): u[x.get_id()] = x
        if f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.num_args() == 1 and f.decl().name() in ("fptosi32", "fptosi64"):
            for x in round_axioms(f): u[x.get_id()] = x
        elif f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.num_args() == 2 and f.decl().name() in ("fdiv", "fmul", "fadd", "fsub"):
            q = f_approx(f)
            if q is not None and abs(q[1]) * q[4] + abs(q[2]) < 10**300: x = z3.Not(f_isnan(f)); u[x.get_id()] = x
        out = tuple(u.values())
    memo[k] = (out, f); return out
def round_axioms(r):
    from fractions import Fraction as Q
    out = []; w = r.size(); tot = []
    def leaves(t, pc):
        if t.decl().kind() == z3.Z3_OP_ITE:
            leaves(t.arg(1), pc + [t.arg(0)]); leaves(t.arg(2), pc + [z3.Not(t.arg(0))]); return
        n = t.decl().name() if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else ""
        if n not in ("f_floor", "f_ceil"): tot.append(None); return
        x = f_approx(t.arg(0))
        if x is None or x[0] is None: tot.append(None); return
        a, p, q, e, M = x
        pp = p.limit_denominator(10**6); e = e + abs(pp - p) * M
        if abs(pp) * M + abs(q) + e + 2 > (1 << 31) - 1: return
        D = pp.denominator; lo, hi = (q - e - 1, q + e) if n == "f_floor" else (q - e, q + e + 1)
        import math
        R = z3.SignExt(64 - w, r) if w < 64 else r
        lin_ = D * R - pp.numerator * a; tot.append((math.ceil(lo * D), math.floor(hi * D), lin_, R))
        b = z3.And(lin_ >= math.ceil(lo * D), lin_ <= math.floor(hi * D), R > -(1 << 31), R < 1 << 31)
        out.append(z3.Implies(z3.And(*pc), b) if pc else b)
        y = t.arg(0)
        while y.decl().name() in ("fadd", "fsub") : 
            y0 = [c for c in y.children() if not z3.is_bv_value(c)]
            if len(y0) != 1: break
            y = y0[0]
        if f_approx(y) is not None and not z3.is_bv_value(y): out.append(z3.Not(f_isnan(y)))
    leaves(r.arg(0), [])
    if tot and None not in tot and all(t[2].eq(tot[0][2]) for t in tot) and len(tot) > 1:
        out.append(z3.And(tot[0][2] >= min(t[0] for t in tot), tot[0][2] <= max(t[1] for t in tot), tot[0][3] > -(1 << 31), tot[0][3] < 1 << 31))
    return out
def lineq(asm, goal):
    """a bit-vector equality that follows from the (conditional) equalities of asm by linear algebra modulo 2^w"""
    if not (z3.is_eq(goal) and z3.is_bv(goal.arg(0))): return False
    w = goal.arg(0).size(); m = mask(w); eqs = []; plain = []
    def collect(a, g, d):
        if z3.is_and(a):
            for x in a.children(): collect(x, g, d)
        elif z3.is_eq(a) and z3.is_bv(a.arg(0)) and a.arg(0).size() == w: eqs.append((g, ldiff(a.arg(0), a.arg(1), w)))
        elif z3.is_implies(a) and d: collect(a.arg(1), a.arg(0), 0)
    for a in asm: collect(a, None, 1)
    if not eqs: return False
    gd, gc = ldiff(goal.arg(0), goal.arg(1), w)
    if not gd: return gc == 0
    # the equalities connected with the goal through shared applications
    inapp = lambda d: {k for k, (x, f) in d.items() if z3.is_app(x) and x.num_args()}
    atoms = inapp(gd); rel = []; left = list(eqs)
    for rnd in range(12):
        if len(rel) > 40: break
        new = [(g, l) for g, l in left if inapp(l[0]) & atoms]
        if not new: break
        left = [x for x in left if not any(x is y for y in new)]
        if len(new) > 12: new = [x for x in new if x[0] is None] + [x for x in new if x[0] is not None][:12]
        rel += new
        for g, l in new: atoms |= inapp(l[0])
    import lia
    rows = []
    ok = {}
    for g, (d, c) in rel:
        if g is not None:
            if g.get_id() not in ok: ok[g.get_id()] = lia.Lia().unsat(list(asm) + [z3.Not(g)], cong=True) is True
            if not ok[g.get_id()]: continue
        rows.append((dict(d), c))
    def elim(row, piv, k):
        f = row[0][k][1]; d = dict(row[0]); c = _acc(d, piv, -f, row[1], m)
        return d, c & m
    cur = (gd, gc); used = []
    rows = [r for r in rows]
    # Gauss-Jordan on atoms with invertible coefficients
    for i in range(len(rows)):
        best = None
        for j, (d, c) in enumerate(rows):
            if j in used: continue
            ks = [k for k, (x, f) in d.items() if f & 1]
            if ks: best = (j, max(ks)); break
        if best is None: break
        j, k = best; used.append(j); d, c = rows[j]; inv = pow(d[k][1], -1, 1 << w)
        piv = ({q: (x, f * inv & m) for q, (x, f) in d.items() if f * inv & m}, c * inv & m); rows[j] = piv
        for q in range(len(rows)):
            if q != j and k in rows[q][0]: rows[q] = elim(rows[q], piv, k)
        if k in cur[0]: cur = elim(cur, piv, k)
        if not cur[0] and cur[1] == 0: return True
    return not cur[0] and cur[1] == 0
def absall(fs):
    l = [abstract(f) for f in fs]
    return l + hard_axioms(l)
def prove1(asm, ng, fs, timeout_ms):
    import lia
    ia = {x.get_id(): x for f in fs for x in int_axioms(f)}
    if ia: asm = asm + list(ia.values()); fs = fs + list(ia.values())
    L = lia.Lia(); r = L.unsat(fs, cong=True)
    if r is True: by("lia"); return "proved", None
    if r is None and z3.is_not(ng) and lineq(asm, ng.arg(0)): by("linear equations"); return "proved", None
    hard = has_hard(fs)
    fa = fp_axioms(fs)
    if fa: asm = asm + fa; fs = fs + fa
    # only the assumptions that are not pure index arithmetic
    if r is None and len(asm) > 1:
        core = [f for f, p in zip(asm, L.pure) if not p] + fa
        core = [f for f in core if not has_hard([f]) or hard] + [ng]
        if len(core) < len(fs):
            r1, s = check_sat(absall(core) if hard else core, min(timeout_ms // 4, 3000))
            if r1 == z3.unsat: by("z3-bv"); return "proved", None
    if r is None and not hard and L.res == z3.unknown and not L.opaque:
        if lia.Lia().unsat(fs, 3 * timeout_ms) is True: by("lia"); return "proved", None
    if r is None and L.opaque:
        L2 = lia.Lia(True)
        if L2.unsat(fs, min(timeout_ms, 2000) if hard else timeout_ms) is True: by("lia"); return "proved", None
    if hard:
        r1, s = check_sat(absall(fs), timeout_ms // 2)
        if r1 == z3.unsat: by("z3-bv"); return "proved", None
    r1, s = check_sat(fs, timeout_ms)
    if r1 == z3.unsat: by("z3-bv"); return "proved", None
    if r1 == z3.sat: return "failed", s.model()
    return "unknown", None
def same_value(a, b, tries=6):
    """a == b for every value of the uninterpreted terms in them"""
    import random
    d = a - b; at = {}; seen = set(); stk = [d]
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not z3.is_bv(x): return False
            at[x.get_id()] = x
        else: stk.extend(x.children())
    r = random.Random(7)
    for _ in range(tries):
        if not z3.simplify(z3.substitute(d, *[(x, z3.BitVecVal(r.getrandbits(x.size()), x.size())) for x in at.values()])).eq(z3.BitVecVal(0, a.size())): return False
    return check_sat([z3.substitute(a, *[(x, z3.BitVec("sv!%d" % i, x.size())) for i, x in enumerate(at.values())]) != z3.substitute(b, *[(x, z3.BitVec("sv!%d" % i, x.size())) for i, x in enumerate(at.values())])], 3000)[0] == z3.unsat
def feasible(assumps, timeout_ms=1500, quick=False):
    t0 = time.time(); STATS.feas += 1
    fs = [zb(a) for a in assumps if a is not True]
    if any(z3.is_false(f) for f in fs): return False
    k = ("f", _ckey(fs)); c = _cget(k, fs)
    if c is not None: return c
    try:
        import lia
        ia = {x.get_id(): x for f in fs for x in int_axioms(f)}
        if ia: fs = fs + list(ia.values())
        r = lia.Lia().unsat(fs, cong=quick)
        if r is None and quick: v = True
        elif r is None:
            r1, _ = check_sat([abstract(f) for f in fs], timeout_ms); v = r1 != z3.unsat
        else: v = not r
        _cput(k, fs, v)
        return v
    finally:
        d = time.time() - t0; STATS.tfeas += d
        if SLOW and d > SLOW: print("SLOWF %.2f n=%d last=%s" % (d, len(fs), str(fs[-1])[:400].replace("\n", " ")))

# ------------------------------------------------------------------ concrete evaluation of terms (contract oracle)
def zeval(e, env, fenv=None):
    """evaluate z3 term with env: {decl name: python int/bool}; fenv: {uf name: python fn}"""
    cache = {}
    fenv = fenv or {}
    def ev(root):
        st = [root]
        while st:
            x = st[-1]; k = x.get_id()
            if k in cache: st.pop(); continue
            ch = x.children()
            if x.decl().kind() == z3.Z3_OP_ITE:
                if ch[0].get_id() not in cache: st.append(ch[0]); continue
                br = ch[1] if cache[ch[0].get_id()] else ch[2]
                if br.get_id() not in cache: st.append(br); continue
                cache[k] = cache[br.get_id()]; st.pop(); continue
            todo = [y for y in ch if y.get_id() not in cache]
            if todo: st.extend(todo); continue
            cache[k] = ev1(x, [cache[y.get_id()] for y in ch]); st.pop()
        return cache[root.get_id()]
    def ev1(x, a):
        kd = x.decl().kind(); K = z3
        if z3.is_bv_value(x): return x.as_long()
        if z3.is_int_value(x): return x.as_long()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
        nm = x.decl().name()
        if kd == K.Z3_OP_UNINTERPRETED:
            if not a:
                if nm in env: return env[nm]
                raise KeyError(nm)
            if nm in fenv: return fenv[nm](*a)
            if nm in FBIN: return c_fbin(nm, *a)
            if nm == "sitofp": return c_itof(a[0], 64, True)
            if nm == "uitofp": return c_itof(a[0], 64, False)
            if nm.startswith("fptosi"): return c_ftoi(a[0], int(nm[6:]), True)
            if nm.startswith("fptoui"): return c_ftoi(a[0], int(nm[6:]), False)
            if nm.startswith("f_"): return funary(nm[2:], a[0])
            raise KeyError(nm)
        if kd == K.Z3_OP_AND: return all(a)
        if kd == K.Z3_OP_OR: return any(a)
        if kd == K.Z3_OP_NOT: return not a[0]
        if kd == K.Z3_OP_IMPLIES: return (not a[0]) or a[1]
        if kd == K.Z3_OP_EQ: return a[0] == a[1]
        if kd == K.Z3_OP_DISTINCT: return len(set(a)) == len(a)
        if kd == K.Z3_OP_XOR: return a[0] != a[1]
        ws = x.children()[0].size() if x.children() and z3.is_bv(x.children()[0]) else None
        B = {K.Z3_OP_BADD: "add", K.Z3_OP_BSUB: "sub", K.Z3_OP_BMUL: "mul", K.Z3_OP_BAND: "and", K.Z3_OP_BOR: "or", K.Z3_OP_BXOR: "xor",
             K.Z3_OP_BSHL: "shl", K.Z3_OP_BLSHR: "lshr", K.Z3_OP_BASHR: "ashr", K.Z3_OP_BSDIV: "sdiv", K.Z3_OP_BUDIV: "udiv",
             K.Z3_OP_BSREM: "srem", K.Z3_OP_BUREM: "urem"}
        if kd in B:
            r = a[0]
            for y in a[1:]: r = binop(B[kd], r, y, ws)
            return r
        C = {K.Z3_OP_SLT: "slt", K.Z3_OP_SLEQ: "sle", K.Z3_OP_SGT: "sgt", K.Z3_OP_SGEQ: "sge", K.Z3_OP_ULT: "ult", K.Z3_OP_ULEQ: "ule",
             K.Z3_OP_UGT: "ugt", K.Z3_OP_UGEQ: "uge"}
        if kd in C: return icmp(C[kd], a[0], a[1], ws)
        if kd == K.Z3_OP_BNEG: return (-a[0]) & mask(ws)
        if kd == K.Z3_OP_BNOT: return (~a[0]) & mask(ws)
        if kd == K.Z3_OP_CONCAT:
            r = 0
            for y, c in zip(a, x.children()): r = (r << c.size()) | y
            return r
        if kd == K.Z3_OP_EXTRACT:
            hi, lo = x.params(); return (a[0] >> lo) & mask(hi - lo + 1)
        if kd == K.Z3_OP_SIGN_EXT: return sext(a[0], ws, x.size())
        if kd == K.Z3_OP_ZERO_EXT: return a[0]
        raise NotImplementedError(str(x.decl()))
    if isinstance(e, (int, bool)): return e
    return ev(e)
