"""Specification vocabulary: the mathematical meaning of element values (used both symbolically and on concrete values)."""
import sym as S
from sym import And, Or, Not, If, Implies, isc, sgn, mask
NAN = 0x7FF8000000000000
N64, N32, N16 = 1 << 63, 1 << 31, 1 << 15
DAY = 24 * 3600 * 10**9
W = dict(B8=8, U8=8, C8=8, I16=16, I32=32, DATE=32, TIME=32, I64=64, SYMBOL=64, TIMESTAMP=64, F64=64)
def isnan(v):
    return S.f_isnan(v)
def isnull(v, t):
    if t in ("B8", "U8", "C8"): return False
    if t == "F64": return isnan(v)
    w = W[t]; return S.icmp("eq", v, 1 << (w - 1), w)
def null(t):
    return NAN if t == "F64" else 0 if t in ("B8", "U8", "C8") else 1 << (W[t] - 1)
def eq(a, b, w): return S.icmp("eq", a, b, w)
def sext(v, w, to): return v if w == to else S.sext(v, w, to)
def zext(v, w, to): return v if w == to else S.zext(v, w, to)
def widen(v, t, to):
    w = W[t]
    if w == to: return v
    if w > to: return S.trunc(v, w, to)
    return zext(v, w, to) if t in ("U8", "B8", "C8") else sext(v, w, to)
def conv(v, f, t):
    """value of type f in the domain of type t; null maps to null"""
    if f == t: return v
    wf, wt = W[f], W[t]
    nul = isnull(v, f)
    if f == "F64":
        r = S.ftoi(v, wt, True)
        return If(nul, null(t), r, wt)
    if t == "F64":
        r = S.itof(v, wf, f not in ("U8", "B8", "C8"))
        return If(nul, NAN, r, 64)
    if t == "B8":
        return If(Or(eq(v, 0, wf), nul), 0, 1, 8)
    r = widen(v, f, wt)
    if t == "TIMESTAMP" and f == "DATE": r = S.binop("mul", r, DAY, 64)
    if t == "TIMESTAMP" and f == "TIME": r = S.binop("mul", r, 10**6, 64)
    return If(nul, null(t), r, wt)
def add(a, b, w): return S.binop("add", a, b, w)
def sub(a, b, w): return S.binop("sub", a, b, w)
def mul(a, b, w): return S.binop("mul", a, b, w)
def lt0(a, w): return S.icmp("slt", a, 0, w)
def floordiv(a, b, w):
    """floor(a/b), b != 0"""
    if w < 32: return S.trunc(floordiv(sext(a, w, 32), sext(b, w, 32), 32), 32, w)
    q = S.binop("sdiv", a, b, w); r = S.binop("srem", a, b, w)
    adj = And(S.icmp("ne", r, 0, w), xor(lt0(a, w), lt0(b, w)))
    return S.binop("sub", q, If(adj, 1, 0, w), w)
def floormod(a, b, w):
    if w < 32: return S.trunc(floormod(sext(a, w, 32), sext(b, w, 32), 32), 32, w)
    r = S.binop("srem", a, b, w)
    adj = And(S.icmp("ne", r, 0, w), xor(lt0(r, w), lt0(b, w)))
    return If(adj, S.binop("add", r, b, w), r, w)
def xor(p, q):
    if isc(p) and isc(q): return bool(p) != bool(q)
    return S.binop("xor", p, q, 1)
def slt(a, b, w): return S.icmp("slt", a, b, w)
def sle(a, b, w): return S.icmp("sle", a, b, w)
def ult(a, b, w): return S.icmp("ult", a, b, w)
def ule(a, b, w): return S.icmp("ule", a, b, w)
