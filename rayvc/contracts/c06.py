"""C06: scalar conversions (ops.h X_to_Y inlines) and the numeric casts of cast_obj preserve value and null."""
from spec import *
import sym as S, re, os
import world as Wd
from contract import Inst, CODE, WIDTH, LIM
TY = dict(b8="B8", u8="U8", i16="I16", i32="I32", i64="I64", f64="F64", date="DATE", time="TIME", adate="DATE", atime="TIME", timestamp="TIMESTAMP")
def inlines():
    t = open(os.path.join(Wd.REPO, "core", "ops.h")).read()
    return [m for m in re.findall(r"static inline \w+ (\w+_to_\w+)\(", t) if all(x in TY for x in m.split("_to_"))]
def extra():
    names = inlines()
    return {"opsinc": '#include "core/rayforce.h"\n#include "core/ops.h"\nvoid *rayvc_keep[] = {%s};\n' % ", ".join("(void *)" + n for n in names)}
def representable(v, f, t):
    """v (non-null, of type f) is a value of type t"""
    if t == "F64" or f == t: return True
    if f == "F64": return None          # the truncation of v fits: decided through ftoi
    wf, wt = W[f], W[t]
    if t == "B8": return True
    if t == "U8" : return And(S.icmp("sge", v, 0, wf), S.icmp("sle", v, 255, wf)) if f != "U8" and f != "B8" else True
    if wf <= wt: return True
    lim = (1 << (wt - 1)) - 1
    return And(S.icmp("sle", v, lim, wf), S.icmp("sge", v, (-lim) & mask(wf), wf))
def scaled(v, f, t):
    """the value of v in type t, None where the pair has no fixed ratio"""
    if f == "TIMESTAMP" and t == "DATE": return S.trunc(floordiv(v, DAY, 64), 64, 32)
    if f == "TIMESTAMP" and t == "TIME": return S.trunc(floordiv(floormod(v, DAY, 64), 10**6, 64), 64, 32)
    return conv(v, f, t)
def judge(V, name, v, r, f, t):
    """r is the conversion of v"""
    n = isnull(v, f)
    if t not in ("B8", "U8"): V.check(name + "null stays null", Implies(n, eqv(V, r, null(t), t)))
    e = scaled(v, f, t)
    if f == "F64" and t != "F64":
        if t in ("B8", "U8"): return
        # trunc(v) is within the target range
        big = S.ftoi(v, 64, True); w = W[t]; lim = (1 << (w - 1)) - 1
        c = And(Not(n), And(S.fcmp("olt", v, S.D2B(float(1 << (w - 1)))), S.fcmp("ogt", v, S.D2B(-float(1 << (w - 1))))))
        if V.native: c = not n and abs(S.B2D(v)) < float(1 << (w - 1))
        V.check(name + "value", Implies(c, eqv(V, r, e, t))); return
    c = And(Not(n), representable(v, f, t)) if not (f, t) in (("TIMESTAMP", "DATE"), ("TIMESTAMP", "TIME")) else Not(n)
    V.check(name + "value", Implies(c, eqv(V, r, e, t)))
    if t not in ("B8", "U8") and f != "F64": V.check(name + "no new null", Implies(c, Not(isnull(r, t))))
def eqv(V, a, b, t):
    if t == "F64": return Or(And(isnan(a), isnan(b)), eq(a, b, 64))
    return eq(a, b, W[t])

def inline_inst(n):
    f, t = (TY[x] for x in n.split("_to_"))
    def setup(B):
        bits = {"b8_to_i64": 64}.get(n, W[f])
        v = B.int("v", bits)
        if f == "B8": B.assume(S.icmp("ule", v, 1, bits))
        B.v = v
        return [v]
    def post(V, r):
        v = V.B.v
        if n == "b8_to_i64":
            V.check("value", eq(r, If(S.icmp("eq", v, 0, 64), 0, 1, 64), 64)); return
        judge(V, "", v, r, f, t)
    return Inst(n, n, setup, post, module="opsinc")

def cast(f, t, vec):
    """pairs where the cast keeps the stored number"""
    nm = "cast_obj(%s%s<-%s%s)" % ("" if vec else "-", t, "" if vec else "-", f)
    def setup(B):
        if vec:
            n = B.int("n", 64, 1, LIM); x = B.vec("x", f, n)
        else: x = B.atom("x", f)
        B.h = x
        return [CODE[t] if vec else (-CODE[t]) & 0xff, x]
    def post(V, r):
        x = V.B.h; code = CODE[t] if vec else (-CODE[t]) & 0xff
        V.check("type", eq(V.typ(r), code, 8))
        ff = {"DATE": "I32", "TIME": "I32", "TIMESTAMP": "I64"}.get(f, f); tt = {"DATE": "I32", "TIME": "I32", "TIMESTAMP": "I64"}.get(t, t)
        w = WIDTH[t]
        if vec:
            V.check("length", eq(V.len(r), x.n, 64))
            V.forall("elem", 0, x.n, lambda k: judge(V, "elem ", x.at(k), V.el(r, k, w), ff, tt))
        else: judge(V, "", x.v, V.av(r, w), ff, tt)
    return Inst(nm, "cast_obj", setup, post, module="rayforce")

def instances(tier="quick"):
    out = [inline_inst(n) for n in inlines()]
    T = ["B8", "U8", "I16", "I32", "I64", "F64", "DATE", "TIME", "TIMESTAMP"]
    for t in T:
        for f in T:
            if f == t: continue
            if (t, f) in (("TIME", "TIMESTAMP"), ("DATE", "TIMESTAMP"), ("TIMESTAMP", "DATE"), ("TIMESTAMP", "TIME"), ("DATE", "TIME"), ("TIME", "DATE")): continue
            out.append(cast(f, t, False))
            if (t, f) in (("B8", "U8"), ("U8", "B8")): continue
            out.append(cast(f, t, True))
    return out
