"""Contracts of LLVM intrinsics and libc functions (trusted)."""
import z3
import sym as S
from sym import And, Or, Not, If, isc, norm, mask
from engine import Ptr, NULL, W, C, F, H, Unsupported, Fact, PathEnd
T = {}
def reg(*names):
    def d(f):
        for n in names: T[n] = f
        return f
    return d
def find(name):
    if name in T: return T[name]
    if name.startswith("llvm."):
        parts = name.split(".")
        for k in range(len(parts), 1, -1):
            n = ".".join(parts[:k])
            if n in T: return T[n]
    return None
def wd(name): return int(name.rsplit(".i", 1)[1])

def rng(e, st, p, n, nm):
    """[p, p+n) inside its object"""
    if isc(n) and n == 0: return
    if not isinstance(p, Ptr): raise Unsupported("libc call on integer pointer")
    if p.r is None:
        e.check(st, S.icmp("eq", n, 0, 64), nm + ":null"); 
        if not (isc(n) and n == 0): raise PathEnd() if False else Unsupported("null in " + nm)
        return
    if p.r.size is None: return
    if e.quiet: return
    c = And(S.icmp("sge", n, 0, 64), Or(S.icmp("eq", n, 0, 64), And(S.icmp("sge", p.o, 0, 64), S.icmp("sle", p.o, p.r.size, 64), S.icmp("sle", n, S.binop("sub", p.r.size, p.o, 64), 64))))
    e.check(st, c, nm + ":bounds", "%s of %s bytes at %s of %s" % (nm, str(n)[:80], str(p.o)[:80], p.r.name))

@reg("memcpy", "memmove", "llvm.memcpy", "llvm.memmove")
def b_memcpy(e, st, a, ins):
    d, s_, n = a[0], a[1], a[2]
    if isc(n) and n == 0: return [(st, d)]
    if (d.r is None or s_.r is None):
        # memcpy(x, NULL, 0) only
        e.check(st, S.icmp("eq", n, 0, 64), "memcpy:null")
        st.assume(S.icmp("eq", n, 0, 64)); return [(st, d)]
    rng(e, st, d, n, "memcpy.dst"); rng(e, st, s_, n, "memcpy.src")
    if not d.r.writable: e.check(st, S.icmp("eq", n, 0, 64), "memcpy:frame", d.r.name)
    v16 = None
    if isc(n) and n == 16 and e.ctr:
        try: v16 = e.read(st, s_.r, s_.o, 16)
        except Unsupported: pass
    if v16 is not None and not isinstance(v16, Ptr): e.write(st, d.r, d.o, 16, v16)
    elif isc(n) and n in (1, 2, 4, 8):
        e.write(st, d.r, d.o, n, e.read(st, s_.r, s_.o, n))
    elif isc(n) and n <= 64:
        vals = []; o = 0; rem = n
        while rem:
            k = 8 if rem >= 8 else 4 if rem >= 4 else 2 if rem >= 2 else 1
            try: v = e.read(st, s_.r, norm(S.binop("add", s_.o, o, 64)), k)
            except Unsupported: vals = None; break
            vals.append((o, k, v)); o += k; rem -= k
        if vals is None: e.push(st, d.r, C(d.o, n, s_.r, st.mem.get(s_.r.id), s_.o))
        else:
            for o, k, v in vals: e.write(st, d.r, norm(S.binop("add", d.o, o, 64)), k, v)
    else:
        e.push(st, d.r, C(d.o, n, s_.r, st.mem.get(s_.r.id), s_.o))
    return [(st, d)]

@reg("memset", "llvm.memset")
def b_memset(e, st, a, ins):
    d, v, n = a[0], a[1], a[2]
    if isinstance(v, Ptr): raise Unsupported("memset")
    w = 8 if isc(v) else v.size()
    v = S.trunc(v, w, 8) if w > 8 else (v & 0xff if isc(v) else v)
    if isc(n) and n == 0: return [(st, d)]
    if d.r is None: e.check(st, S.icmp("eq", n, 0, 64), "memset:null"); st.assume(S.icmp("eq", n, 0, 64)); return [(st, d)]
    rng(e, st, d, n, "memset")
    if not d.r.writable: e.check(st, S.icmp("eq", n, 0, 64), "memset:frame", d.r.name)
    if isc(n) and n == 16 and e.ctr and isc(v): e.write(st, d.r, d.o, 16, int.from_bytes(bytes([v]) * 16, "little"))
    else: e.push(st, d.r, F(d.o, n, v))
    return [(st, d)]

@reg("llvm.fmuladd", "llvm.fma", "fma")
def b_fma(e, st, a, ins):
    # modelled as multiply then add (contraction and reassociation are allowed by the project's flags anyway)
    return [(st, S.fbin("fadd", S.fbin("fmul", a[0], a[1]), a[2]))]
@reg("llvm.fabs")
def b_fabs(e, st, a, ins): return [(st, S.binop("and", a[0], (1 << 63) - 1, 64))]
def un(n):
    def f(e, st, a, ins): return [(st, S.funary(n, a[0]))]
    return f
for nm in ("floor", "ceil", "sqrt", "round", "trunc", "rint", "exp", "log", "sin", "cos"):
    T[nm] = un(nm); T["llvm." + nm] = un(nm)
T["llvm.nearbyint"] = un("rint")
@reg("llvm.smin", "llvm.smax", "llvm.umin", "llvm.umax")
def b_minmax(e, st, a, ins):
    nm = ins.x.v.split(".")[1]; w = wd(ins.x.v)
    c = S.icmp({"smin": "slt", "smax": "sgt", "umin": "ult", "umax": "ugt"}[nm], a[0], a[1], w)
    return [(st, If(c, a[0], a[1], w))]
@reg("llvm.abs")
def b_abs(e, st, a, ins):
    w = wd(ins.x.v); return [(st, If(S.icmp("slt", a[0], 0, w), S.binop("sub", 0, a[0], w), a[0], w))]
@reg("llvm.ctpop")
def b_ctpop(e, st, a, ins):
    w = wd(ins.x.v); v = a[0]
    if isc(v): return [(st, bin(v).count("1"))]
    r = sum([z3.ZeroExt(w - 1, z3.Extract(i, i, v)) for i in range(w)][1:], z3.ZeroExt(w - 1, z3.Extract(0, 0, v)))
    return [(st, r)]
@reg("llvm.ctlz", "llvm.cttz")
def b_ctz(e, st, a, ins):
    w = wd(ins.x.v); v = a[0]; lead = "ctlz" in ins.x.v
    if isc(v):
        if v == 0: return [(st, w)]
        return [(st, (w - v.bit_length()) if lead else ((v & -v).bit_length() - 1))]
    r = z3.BitVecVal(w, w)
    for i in (range(w) if lead else range(w - 1, -1, -1)):
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i if lead else i, w), r)
    return [(st, r)]
@reg("llvm.bswap")
def b_bswap(e, st, a, ins):
    w = wd(ins.x.v); v = a[0]
    return [(st, S.concat_bytes([(S.extract_bytes(v, w // 8, w // 8 - 1 - i, 1), 1) for i in range(w // 8)]))]
@reg("llvm.fshl", "llvm.fshr")
def b_fsh(e, st, a, ins):
    w = wd(ins.x.v); l = "fshl" in ins.x.v
    k = S.binop("urem", a[2], w, w)
    if not isc(k): raise Unsupported("fsh")
    if k == 0: return [(st, a[0] if l else a[1])]
    if l: r = S.binop("or", S.binop("shl", a[0], k, w), S.binop("lshr", a[1], w - k, w), w)
    else: r = S.binop("or", S.binop("shl", a[0], w - k, w), S.binop("lshr", a[1], k, w), w)
    return [(st, r)]
@reg("llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow", "llvm.uadd.with.overflow", "llvm.umul.with.overflow", "llvm.usub.with.overflow")
def b_ovf(e, st, a, ins):
    op = ins.x.v.split(".")[1]; w = wd(ins.x.v)
    o = {"add": "add", "sub": "sub", "mul": "mul"}[op[1:]]
    r = S.binop(o, a[0], a[1], w)
    ex = (lambda v: S.sext(v, w, 2 * w)) if op[0] == "s" else (lambda v: S.zext(v, w, 2 * w))
    wide = S.binop(o, ex(a[0]), ex(a[1]), 2 * w)
    return [(st, (r, S.icmp("ne", wide, ex(r), 2 * w)))]
@reg("llvm.expect")
def b_expect(e, st, a, ins): return [(st, a[0])]
@reg("llvm.objectsize")
def b_os(e, st, a, ins): return [(st, mask(64))]
@reg("llvm.trap", "abort", "exit", "__assert_fail")
def b_trap(e, st, a, ins): return []
@reg("llvm.threadlocal.address")
def b_tls(e, st, a, ins): return [(st, a[0])]
@reg("llvm.is.constant")
def b_isc(e, st, a, ins): return [(st, False)]
@reg("llvm.is.fpclass")
def b_fpclass(e, st, a, ins):
    m = a[1]
    if m == 3: return [(st, S.fcmp("uno", a[0], a[0]))]
    raise Unsupported("is.fpclass %s" % m)

def strlen_fact(e, st, p):
    """n = strlen(p): the first zero byte at or after p"""
    n = e.fresh("strlen", 64); st.assume(S.icmp("sge", n, 0, 64)); st.assume(S.icmp("slt", n, 1 << 40, 64))
    u = e.fresh_const("u")
    b = lambda i: e.read(st, p.r, norm(S.binop("add", p.o, i, 64)), 1)
    try:
        bu = b(u); st.facts.append(Fact(u, 0, n, S.icmp("ne", bu, 0, 8)))
        st.assume(S.icmp("eq", b(n), 0, 8))
    except Unsupported: pass
    if p.r.size is not None:
        e.check(st, S.icmp("slt", S.binop("add", p.o, n, 64), p.r.size, 64), "strlen:terminated")
    return n
@reg("strlen")
def b_strlen(e, st, a, ins):
    p = a[0]
    if p.r is None: raise Unsupported("strlen(NULL)")
    if isc(p.o) and getattr(p.r, "init_glob", None):
        i = p.o
        while True:
            c = e.read(st, p.r, i, 1)
            if c == 0: return [(st, i - p.o)]
            i += 1
    return [(st, strlen_fact(e, st, p))]
@reg("memcmp", "bcmp")
def b_memcmp(e, st, a, ins):
    p, q, n = a
    rng(e, st, p, n, "memcmp"); rng(e, st, q, n, "memcmp")
    if isc(n) and n <= 32:
        r = 0
        res = z3.BitVecVal(0, 32) if n else 0
        for i in reversed(range(n)):
            x = e.read(st, p.r, norm(S.binop("add", p.o, i, 64)), 1); y = e.read(st, q.r, norm(S.binop("add", q.o, i, 64)), 1)
            res = If(S.icmp("eq", x, y, 8), res, S.binop("sub", S.zext(x, 8, 32), S.zext(y, 8, 32), 32), 32)
        return [(st, res)]
    # d = first difference (ghost), result is its sign
    r = e.fresh("memcmp", 32); d = e.fresh("diff", 64); u = e.fresh_const("u")
    b = lambda s_, z, i: e.read(z, s_.r, norm(S.binop("add", s_.o, i, 64)), 1)
    st.facts.append(Fact(u, 0, d, S.icmp("eq", b(p, st, u), b(q, st, u), 8)))
    st.assume(And(S.icmp("sge", d, 0, 64), S.icmp("sle", d, n, 64)))
    x, y = b(p, st, d), b(q, st, d)
    st.assume(If(S.icmp("eq", d, n, 64), S.icmp("eq", r, 0, 32), And(S.icmp("ne", x, y, 8), S.icmp("ne", r, 0, 32), z3.Not(z3.Xor(S.zb(S.icmp("slt", r, 0, 32)), S.zb(S.icmp("ult", x, y, 8))))), 1))
    st.inst.append(d); st.ghost["memcmp"] = st.ghost.get("memcmp", ()) + (d,)
    return [(st, r)]
