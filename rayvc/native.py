"""Replays a contract instance against the compiled code of /repo: the same set-up and post-condition text is run on concrete inputs
(values of the verifier's counterexample first, then boundary and random values), in a forked child with objects ending at guard pages."""
import ctypes as C, os, sys, mmap, random, struct, time, json, subprocess, glob, re, concurrent.futures as cf, signal, traceback
import sym as S
from sym import isc, mask, sgn
import world as Wd
from contract import CODE, WIDTH, LIM, Reject, Obj, NUL
from engine import Ptr

CFLAGS = ["-O2", "-fPIC", "-std=c17", "-m64", "-march=x86-64-v3", "-fsigned-char", "-ffp-contract=off", "-fno-math-errno", "-fwrapv", "-fno-strict-aliasing", "-w",
          "-include", "core/def.h", '-DGIT_HASH="x"', "-I."]
SKIPN = Wd.SKIP
def build_lib(outdir, statics, extra=None):
    """shared library of the current sources; statics: {module: [static functions to export]}"""
    repo = Wd.REPO
    srcs = [f for f in Wd.makefile_sources()] + [os.path.join(repo, "app", x) for x in ("repl.c", "term.c") if os.path.exists(os.path.join(repo, "app", x))]
    for n in (extra or {}): srcs.append(os.path.join(outdir, n + ".c"))
    def one(f):
        n = os.path.basename(f)[:-2]; o = os.path.join(outdir, "n_" + n + ".o"); src = f
        if n in statics:
            src = os.path.join(outdir, "w_%s.c" % n)
            with open(src, "w") as h:
                h.write('#include "%s"\n' % os.path.relpath(f, repo))
                for fn in statics[n]: h.write("void *rayvc_get_%s(void) { return (void *)%s; }\n" % (fn, fn))
        p = subprocess.run([Wd.CLANG, *CFLAGS, "-I" + repo, "-c", src, "-o", o], cwd=repo, capture_output=True, text=True)
        if p.returncode: raise Wd.BuildError(p.stderr[:1000])
        return o
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, srcs))
    so = os.path.join(outdir, "rayvc_native.so")
    gh = os.path.join(outdir, "n_guard_heap.o")
    p = subprocess.run([Wd.CLANG, "-O2", "-fPIC", "-w", "-c", os.path.join(os.path.dirname(os.path.abspath(__file__)), "guard_heap.c"), "-o", gh], capture_output=True, text=True)
    if p.returncode: raise Wd.BuildError(p.stderr[:1000])
    p = subprocess.run([Wd.CLANG, "-shared", "-o", so, *objs, gh, "-Wl,--wrap=heap_alloc,--wrap=heap_free,--wrap=heap_realloc", "-Wl,-Bsymbolic", "-lm", "-ldl", "-lpthread"], capture_output=True, text=True)
    if p.returncode: raise Wd.BuildError(p.stderr[:1000])
    return so

PAGE = 4096; SLOT = 16 * PAGE
class Arena:
    """slots of memory each followed by an inaccessible page"""
    def __init__(s, n=40):
        libc = C.CDLL(None, use_errno=True); libc.mmap.restype = C.c_void_p; libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]
        libc.mprotect.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
        s.base = libc.mmap(None, n * (SLOT + PAGE) + PAGE, 3, 0x22, -1, 0); s.n = n; s.i = 0
        libc.mprotect(s.base, PAGE, 0)
        for k in range(n): libc.mprotect(s.base + PAGE + k * (SLOT + PAGE) + SLOT, PAGE, 0)
    def alloc(s, size, align=16):
        if size > SLOT - 64 or s.i >= s.n: raise Reject()
        top = s.base + PAGE + s.i * (SLOT + PAGE) + SLOT; s.i += 1
        a = (top - size) & ~(align - 1)
        return a

NANB = 0x7FF8000000000000
FPOOL = [0, 1 << 63, NANB] + [S.D2B(x) for x in (1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 5.0, -7.0, 10.0, 1e10, -1e10, 1e300, float("inf"), -float("inf"), 1.5, -2.5, 7.25,
        9.3e18, -9.3e18, -9223372036854775808.0, 4611686018427387904.0, 1e-300, 100.0, -100.0, 2147483648.0, -2147483648.0)]

class NatB:
    native = True
    def __init__(s, lib, rng, arena, hints, consts):
        s.lib, s.rng, s.arena, s.hints, s.consts = lib, rng, arena, hints, consts
        arena.i = 0; s.log = []; s.ro = []; s.small = rng.random() < 0.85; s.keep = []; s.h = {}; s.cbs = []
        s.maxn = rng.choice((1, 2, 3, 4, 5, 8, 16, 33, 70, 130, 300))
    # ---- values
    def val(s, w, name=None, fl=False):
        r = s.rng
        hv = s.hints.get(name)
        if hv is not None and not isinstance(hv, list) and r.random() < 0.4: return hv & mask(w)
        if fl:
            k = r.random()
            if k < 0.35: return S.D2B(float(r.randint(-9, 9)))
            if k < 0.6: return r.choice(FPOOL)
            if k < 0.75: return S.D2B(r.randint(-40, 40) / 4.0)
            if k < 0.9: return S.D2B(r.uniform(-1e6, 1e6))
            v = r.getrandbits(64)
            return NANB if S.f_isnan(v) else v
        k = r.random()
        if k < 0.45: return r.randint(-4, 12) & mask(w)
        if k < 0.65: return r.choice((0, 1, mask(w), 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, (1 << (w - 2)), mask(w) - 1, 2, (1 << (w // 2)) & mask(w), ((1 << (w // 2)) + 3) & mask(w)))
        if k < 0.8 and s.consts: return (r.choice(s.consts) + r.choice((-1, 0, 0, 1))) & mask(w)
        if k < 0.9: return sgn(r.getrandbits(w), w) >> r.randint(0, w - 1) & mask(w)
        return r.getrandbits(w)
    def int(s, name, w=64, lo=None, hi=None, signed=True):
        r = s.rng
        cv = lambda x: sgn(x & mask(w), w) if signed else x & mask(w)
        L = cv(lo) if lo is not None else (-(1 << (w - 1)) if signed else 0)
        H = cv(hi) if hi is not None else ((1 << (w - 1)) - 1 if signed else mask(w))
        if L > H: raise Reject()
        v = None; hv = s.hints.get(name)
        if hv is not None and not isinstance(hv, list) and r.random() < 0.5:
            v = cv(hv)
            if not (L <= v <= H): v = None
        if v is None and L >= 0 and H >= LIM // 4 and lo is not None:      # a size
            v = L + r.randint(0, s.maxn)
            if s.consts and r.random() < 0.12:
                c = r.choice(s.consts)
                if 0 < c <= 2000: v = L + max(0, c + r.randint(-4, 4))
        if v is None and H - L <= 4096: v = r.choice((L, H, r.randint(L, H), r.randint(L, H)))
        if v is None:
            for _ in range(20):
                v = cv(s.val(w))
                if L <= v <= H: break
            else: v = r.choice((L, H, r.randint(L, H)))
        v &= mask(w); s.log.append((name, sgn(v, w) if signed else v)); return v
    def bool(s, name):
        v = s.rng.random() < 0.5; s.log.append((name, v)); return v
    def choice(s, name, vals):
        v = s.rng.choice(list(vals)); s.log.append((name, v)); return v
    def assume(s, c):
        if c is not True and not (isinstance(c, int) and c): raise Reject()
    # ---- objects
    def mem(s, size, align, writable, h):
        a = s.arena.alloc(max(size, 1), align); h.p = a; h.size = size; h.writable = writable
        s.keep.append(h); return a
    def wr(s, a, v, n): C.memmove(a, (v & mask(8 * n)).to_bytes(n, "little"), n)
    def header(s, a, tp, rc, attrs, n=None):
        s.wr(a, 0xff, 1); s.wr(a + 1, 0, 1); s.wr(a + 2, tp & 0xff, 1); s.wr(a + 3, attrs if isinstance(attrs, int) else 0, 1)
        s.wr(a + 4, rc if isinstance(rc, int) else 1 << 20, 4)
        if n is not None: s.wr(a + 8, n, 8)
    def elems(s, name, n, w, tp, at):
        r = s.rng; hv = s.hints.get(name); hv = hv if isinstance(hv, list) and hv else None
        usehint = hv and s.usehint
        dom = s.rng.random() < 0.5       # few distinct values: ties, repeats
        pool = [s.elem(w, tp) for _ in range(3)] if dom else None
        if dom and w in (2, 4, 8) and r.random() < 0.4:      # close values: a few bits apart
            pool += [v ^ 1 << r.randrange(8 * w - (12 if tp == "F64" else 0)) for v in pool]
        out = []
        # shape of the data: independent values, few exceptions in a constant, or a few constant runs
        shape = r.random(); base = sp = None
        if at is None and not usehint and shape < 0.3 and n > 3:
            p, q = (0, 1) if tp == "B8" else (s.elem(w, tp), s.elem(w, tp))
            if r.random() < 0.5: p, q = q, p
            base = [p] * n
            if shape < 0.15:
                for _ in range(r.choice((0, 1, 1, 2, 3, 5))): base[r.randrange(n)] = q
            else:
                cuts = sorted(r.randint(0, n) for _ in range(r.choice((1, 2, 2, 3, 4))))
                for a_, b_ in zip(cuts[::2], cuts[1::2] + [n]): base[a_:b_] = [q] * (b_ - a_)
                if r.random() < 0.4: i_ = r.randrange(n); base[i_] = q if base[i_] == p else p
        for i in range(n):
            if at is not None: v = at(i)
            elif base: v = base[i]
            elif usehint and r.random() < 0.7: v = hv[i % len(hv)] & mask(8 * w)
            elif pool and r.random() < 0.9: v = r.choice(pool)
            else: v = s.elem(w, tp)
            if tp == "B8": v = 1 if v & 1 else 0
            if (tp == "F64") and S.f_isnan(v): v = NANB
            out.append(v)
        return out
    def elem(s, w, tp): return s.val(8 * w, None, tp == "F64") if w <= 8 else s.rng.choice((0, s.rng.getrandbits(8 * w), 7))
    usehint = True
    def vec(s, name, tp, n, writable=False, rc=None, attrs=None, w=None, cap=None, at=None, code=None, mmod=0xff):
        w = w or WIDTH[tp]; h = Obj(); n_ = sgn(n, 64)
        if n_ < 0 or n_ > 4000: raise Reject()
        c = cap if cap is not None else n
        if c > 4000: raise Reject()
        a = s.mem(16 + c * w, 16 if w >= 8 or True else 16, writable, h)
        s.header(a, CODE[tp] if code is None else code, rc, attrs, n)
        s.wr(a, mmod, 1)
        vals = s.elems(name, c, w, tp, at)
        for i, v in enumerate(vals): s.wr(a + 16 + i * w, v, w)
        h.tp, h.n, h.w, h.name = tp, n, w, name; h.arr = lambda i: vals[sgn(i, 64) if i >> 63 else i]
        s.log.append((name, "%s[%d] %s" % (tp, n_, [s.show(v, w, tp) for v in vals[:40]])))
        return h
    def show(s, v, w, tp):
        if tp == "F64": return repr(S.B2D(v))
        return v if tp in ("U8", "B8", "C8") or w > 8 else sgn(v, 8 * w)
    def atom(s, name, tp, rc=None, val=None):
        w = WIDTH[tp] if tp != "GUID" else 8; h = Obj()
        v = val if val is not None else s.val(8 * w, name, tp == "F64")
        if tp == "B8": v &= 1
        if tp == "F64" and S.f_isnan(v): v = NANB
        a = s.mem(16, 16, False, h); s.header(a, -CODE[tp], rc, 0)
        s.wr(a + 8, s.rng.getrandbits(64), 8); s.wr(a + 8, v, w)
        h.tp, h.w, h.v, h.name, h.n = tp, w, v, name, None
        s.log.append((name, "%s atom %s" % (tp, s.show(v, w, tp)))); return h
    def buf(s, name, n, w=1, writable=False, at=None, slack=0):
        h = Obj(); n_ = sgn(n, 64)
        if n_ < 0 or n_ * w > 60000: raise Reject()
        a = s.mem(n_ * w + slack, w, writable, h)
        vals = s.elems(name, n_, w, None, at)
        for i, v in enumerate(vals): s.wr(a + i * w, v, w)
        h.n, h.w, h.name, h.tp = n, w, name, None; h.arr = lambda i: vals[sgn(i, 64) if i >> 63 else i]
        s.log.append((name, "buf%d[%d] %s" % (8 * w, n_, vals[:60] if w > 1 else repr(bytes(vals[:200]))))); return h
    def struct(s, name, size, cells, writable=True):
        h = Obj(); a = s.mem(size, 16, writable, h)
        for i in range(size): s.wr(a + i, s.rng.getrandbits(8), 1)
        for off, (n, v) in cells.items():
            if isinstance(v, Obj): v = v.p
            s.wr(a + off, int(v), n)
        h.name = name; h.tp = h.n = None
        s.log.append((name, "struct %s" % {k: (int(v) if not isinstance(v, Obj) else v.name) for k, (n, v) in cells.items()}))
        return h
    def null(s): return 0
    def nullobj(s): return s.sym("__NULL_OBJ")
    def fn(s, name): return C.cast(s.lib[name], C.c_void_p).value
    def sym(s, name): return C.addressof(C.c_char.in_dll(s.lib, name))
    def snapshot(s):
        for h in s.keep:
            h.snap = C.string_at(h.p, h.size)
    def frame(s):
        for h in s.keep:
            if not h.writable:
                now = C.string_at(h.p, h.size)
                if now != h.snap:
                    a, b = bytearray(now), bytearray(h.snap)
                    a[4:8] = b[4:8] if len(a) > 8 else a[4:8]      # reference counts are accounted for separately
                    if a != b: return "object %s was modified" % h.name
        return None

class NatV:
    native = True
    def __init__(s, B, lib): s.B, s.lib = B, lib; s.fails = []; s.null_obj = B.sym("__NULL_OBJ"); s.err_obj = B.sym("__ERR_OBJ"); s.ctx = []
    def rd(s, p, off, n): return int.from_bytes(C.string_at(s.addr(p) + sgn(off & mask(64), 64), n), "little")
    def addr(s, p):
        p = p.p if isinstance(p, Obj) else p
        if p < 4096: raise BadPtr("null pointer %d dereferenced by the post-condition" % p)
        return p
    def typ(s, p): return s.rd(p, 2, 1)
    def len(s, p): return s.rd(p, 8, 8)
    def rc(s, p): return s.rd(p, 4, 4)
    def el(s, p, i, w): return s.rd(p, 16 + sgn(i & mask(64), 64) * w, w)
    def bel(s, p, i, w): return s.rd(p, sgn(i & mask(64), 64) * w, w)
    def av(s, p, w): return s.rd(p, 8, w)
    def check(s, name, c):
        if c is not True and not (isinstance(c, int) and c): s.fails.append((name, list(s.ctx)))
    def case(s, cond, f):
        if cond: f()
    def forall(s, name, lo, hi, f):
        lo, hi = sgn(lo & mask(64), 64), sgn(hi & mask(64), 64)
        for k in range(lo, min(hi, lo + 5000)):
            s.ctx.append((name, k)); f(k & mask(64)); s.ctx.pop()
            if s.fails: return
    def exists(s, name, lo, hi, f): raise NotImplementedError
    def feq(s, a, b):
        if a == b: return True
        x, y = S.B2D(a), S.B2D(b)
        if x != x or y != y: return x != x and y != y
        return x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y))
    def use(s, k): pass
    lexw = 64
    def lexcmp(s, objs, offs, lens):
        a, b = (C.string_at(o.p + f, n) for o, f, n in zip(objs, offs, lens))
        return ((a > b) - (a < b)) & mask(64)
    def is_ptr(s, p, h): return p == h.p
    def isnullobj(s, p): return p == s.null_obj
    def iserr(s, p): return p == s.err_obj
    def recur(s, name, w, init, step, n):
        g = [init]
        for i in range(sgn(n, 64)): g.append(step(g[-1], i))
        return lambda k: g[k]
    def fold(s, name, v, w, init, step, n, comm=None, fl=False):
        acc = init
        for i in range(sgn(n, 64)): acc = step(acc, i)
        s.check(name, s.feq(acc, v) if fl else acc == v)
class BadPtr(Exception): pass

def ctype(ty):
    if ty.k == "double": return C.c_uint64, True
    if ty.k == "void": return None, False
    if ty.k == "int": return {1: C.c_uint8, 8: C.c_uint8, 16: C.c_uint16, 32: C.c_uint32, 64: C.c_uint64}[ty.n], False
    if ty.k == "ptr": return C.c_uint64, False
    raise NotImplementedError(repr(ty))

def ret_type(f):
    import ir
    m = re.search(r'(void|ptr|double|float|i\d+)\s*$', f.rty.strip())
    if not m: raise NotImplementedError("return type " + f.rty)
    return ir.parse_type(ir.Toks([m.group(1)]), f.mod)
def mine_consts(world, fn, mod, depth=2):
    """integer constants in the function and its callees"""
    out = set(); seen = set(); work = [(fn, mod, 0)]
    while work:
        n, m, d = work.pop()
        if n in seen: continue
        seen.add(n); f = world.func(n, m)
        if f is None: continue
        body = "\n".join(f._body)
        for x in re.findall(r'(?<![%\w.])-?\d{1,19}(?![\w.])', body):
            v = int(x)
            if -(1 << 63) <= v < 1 << 64: out.add(v & mask(64))
        if d < depth:
            for c in re.findall(r'call [^@\n]*@([\w.$]+)\(', body): work.append((c, f.mod.name if hasattr(f.mod, "name") else None, d + 1))
    return sorted(out)[:400]

def hints_from(models):
    """values of the counterexample by input name; arrays aligned on common indices"""
    import z3
    H = {}
    for m in models:
        if m is None: continue
        arrs = {}
        for d in m.decls():
            nm = d.name()
            try:
                if d.arity() == 0:
                    v = m[d]
                    if z3.is_bv_value(v): H.setdefault(nm, v.as_long())
                elif d.arity() == 1:
                    fi = m[d]; t = {}
                    for i in range(fi.num_entries()):
                        e = fi.entry(i)
                        if z3.is_bv_value(e.value()) and z3.is_bv_value(e.arg_value(0)): t[e.arg_value(0).as_long()] = e.value().as_long()
                    el = fi.else_value()
                    arrs[nm] = (t, el.as_long() if el is not None and z3.is_bv_value(el) else 0)
            except Exception: pass
        keys = sorted({k for t, _ in arrs.values() for k in t})
        for nm, (t, el) in arrs.items(): H.setdefault(nm, []); H[nm] = (H[nm] if isinstance(H[nm], list) else []) + [t.get(k, el) for k in keys]
    return H

def child(world, inst, so, hints, seed, secs, fd, shm, ncores=None):
    """runs in the forked child"""
    os.environ["RAYFORCE_NO_REPL"] = "1"
    dn = os.open("/dev/null", os.O_RDWR); os.dup2(dn, 0); os.dup2(dn, 1); os.dup2(dn, 2)
    lib = C.CDLL(so, mode=os.RTLD_LAZY | C.RTLD_GLOBAL)
    if inst.nat is None or inst.nat.get("runtime", True):
        lib.runtime_create.restype = C.c_void_p
        if ncores:
            av = (C.c_char_p * 4)(b"rayforce", b"-c", str(ncores).encode(), None); lib.runtime_create(3, av)
        else: lib.runtime_create(0, None)
    C.c_int.in_dll(lib, "rayvc_guard_on").value = 1 if (inst.nat or {}).get("guard", True) else 0
    f = world.func(inst.fn, inst.module)
    try: g = lib[inst.fn]
    except AttributeError:
        gg = lib["rayvc_get_" + inst.fn]; gg.restype = C.c_void_p; g = C.CFUNCTYPE(None)(gg())
        addr = gg()
    else: addr = C.cast(g, C.c_void_p).value
    pair = re.search(r'\{ i64, i(\d+) \}\s*$', f.rty.strip())
    if pair:
        class Pair(C.Structure): _fields_ = [("a", C.c_uint64), ("b", {64: C.c_uint64, 32: C.c_uint32, 16: C.c_uint16, 8: C.c_uint8}[int(pair.group(1))])]
        class _R: k = "pair"
        rty, rt, rfl = _R, Pair, False
    else: rty = ret_type(f); rt, rfl = ctype(rty)
    pts = [ctype(p[1]) for p in f.params]
    sx = [f.sext[i] if i < len(f.sext) else False for i in range(len(pts))]
    pts = [((C.c_int32 if x else C.c_uint32) if t in (C.c_uint8, C.c_uint16) else t, fl) for (t, fl), x in zip(pts, sx)]
    proto = C.CFUNCTYPE(C.c_double if rfl else rt, *[C.c_double if fl else t for t, fl in pts]); call = proto(addr)
    rng = random.Random(seed); arena = Arena(); consts = mine_consts(world, inst.fn, inst.module)
    t0 = time.time(); n = rej = 0
    def put(d): os.write(fd, (json.dumps(d) + "\n").encode())
    while time.time() - t0 < secs:
        B = NatB(lib, rng, arena, hints, consts); B.usehint = rng.random() < 0.5
        try:
            args = inst.setup(B)
            argv = args[0] if isinstance(args, tuple) else args
            argv = [a.p if isinstance(a, Obj) else a for a in argv]
        except Reject:
            rej += 1
            if rej > 200000: break
            continue
        B.snapshot(); n += 1
        txt = json.dumps([[k, str(v)] for k, v in B.log])[:6000].encode()
        shm.seek(0); shm.write(struct.pack("<I", len(txt)) + txt)
        cv = [S.B2D(a) if fl else sgn(int(a) & mask(p[1].n), p[1].n) if x else (int(a) & mask(C.sizeof(t) * 8)) for a, (t, fl), p, x in zip(argv, pts, f.params, sx)]
        ret = call(*cv)
        if pair: ret = [ret.a, ret.b]
        if rfl: ret = S.D2B(ret)
        if rty.k == "int" and rty.n == 1: ret = bool(ret & 1)
        elif isinstance(ret, int) and rty.k == "int": ret &= mask(rty.n)
        V = NatV(B, lib)
        try:
            if inst.nat and inst.nat.get("after"): inst.nat["after"](V, ret)
            inst.post(V, ret)
        except BadPtr as e: V.fails.append((str(e), []))
        except IndexError as e: V.fails.append(("post-condition out of range %s" % e, []))
        fr = B.frame()
        if fr: V.fails.append((fr, []))
        if V.fails:
            put({"kind": "mismatch", "inputs": B.log_json() if hasattr(B, "log_json") else [[k, str(v)] for k, v in B.log], "ret": str(ret), "failed": [[str(a), str(b)] for a, b in V.fails[:5]], "trials": n})
            os._exit(0)
    put({"kind": "none", "trials": n, "rejected": rej}); os._exit(0)

def replay(world, inst, so, models, seed, secs=15):
    """-> dict(kind=mismatch|crash|hang|none|error, ...)"""
    cores = (inst.nat or {}).get("cores")
    if not cores: return replay1(world, inst, so, models, seed, secs, None)
    tot = 0; r = None
    for k in sorted(cores, key=lambda c: (c * 7919 + seed) % 11):
        r = replay1(world, inst, so, models, seed + k, max(secs / len(cores), 0.5), k)
        if r["kind"] != "none": r["workers"] = k; return r
        tot += r["trials"]
    r["trials"] = tot; return r
def replay1(world, inst, so, models, seed, secs, ncores):
    hints = {}
    try: hints = hints_from(models)
    except Exception: pass
    r, w = os.pipe(); shm = mmap.mmap(-1, 8192)
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            os.setsid(); os.chdir(os.path.dirname(so))
            child(world, inst, so, hints, seed, secs, w, shm, ncores)
        except BaseException as e:
            try: os.write(w, (json.dumps({"kind": "error", "what": "%r %s" % (e, traceback.format_exc()[-800:])}) + "\n").encode())
            except Exception: pass
        os._exit(0)
    os.close(w)
    t0 = time.time(); st = None
    while time.time() - t0 < secs + 20:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        time.sleep(0.02)
    else:
        os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
        return dict(kind="hang", inputs=shm_inputs(shm))
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        data += b
    os.close(r)
    if os.WIFSIGNALED(st): return dict(kind="crash", signal=os.WTERMSIG(st), inputs=shm_inputs(shm))
    try: return json.loads(data.decode().strip().split("\n")[-1])
    except Exception: return dict(kind="error", what="child gave no result (%r)" % st)
def shm_inputs(shm):
    shm.seek(0); n = struct.unpack("<I", shm.read(4))[0]
    try: return json.loads(shm.read(n).decode(errors="replace"))
    except Exception: return "?"
