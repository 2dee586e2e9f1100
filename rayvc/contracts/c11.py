"""C11: reference counts.  clone_obj adds one reference; drop_obj takes one away and, when it was the last, releases the block exactly once after dropping each
part exactly once; copy_obj makes an equal value with one reference, sharing (cloning once) the parts it keeps; cow_obj gives the value itself only to its only owner.
Parts are opaque; drop_obj, clone_obj and copy_obj of a part go through these contracts (induction on depth).  A ghost cell counts the parts treated so far:
the k-th call must be for part k."""
from spec import *
import sym as S, z3, ctypes
from sym import norm
from contract import Inst, CODE, WIDTH, LIM
from engine import Ptr, Region, Init, Unsupported
import engine as E
from contracts.c14 import opaque
def eq64(a, b): return eq(a, b, 64)
def dw(f): return lambda a, b, w=64: f(a, b, w)
sle, slt, add, sub = dw(sle), dw(slt), dw(add), dw(sub)
B64 = z3.BitVecSort(64)
COPY = z3.Function("copyof", B64, B64)
PARTED = ["LIST", "B8", "U8", "I16", "I32", "I64", "F64", "DATE", "TIME", "TIMESTAMP", "GUID", "ENUM"]
def parted(t): return 77 + {"LIST": 0, "ENUM": 20}.get(t, CODE.get(t, 0))
LISTS = dict(LIST=0, MAPFILTER=71, MAPGROUP=72, MAPCOMMON=74, **{"PARTED" + t: parted(t) for t in PARTED})
VECS = ["B8", "U8", "I16", "I32", "I64", "SYMBOL", "DATE", "TIME", "TIMESTAMP", "F64", "GUID", "C8"]
ATOMS = ["B8", "U8", "I16", "I32", "I64", "SYMBOL", "DATE", "TIME", "TIMESTAMP", "F64", "C8"]
LAMBDA = ["name", "args", "body", "nfo", "bc", "consts", "dbg", "env"]
PAIRS = dict(TABLE=98, DICT=99, ENUM=20)
WI = dict(WIDTH, SYMBOL=8, GUID=16)
EXT = 0xfd
def note(st, k, v): st.ghost[k] = st.ghost.get(k, ()) + (v,)
def sole(kind):
    def c(e, st, a, ins):
        note(st, "released", (kind, a[0] if kind != "runtime_fdmap_pop" else a[1])); return [(st, None)]
    c.__doc__ = "%s(x): gives the storage of x back" % kind
    return c
def c_vn(e, st, a, ins):
    """vn_list(n, ...): a new list of those values"""
    n = a[0]
    if not E.isc(n) or len(a) != n + 1: raise Unsupported("vn_list")
    e.nfresh += 1; cells = {0: (1, 0xff), 1: (1, 0), 2: (1, 0), 3: (1, 0), 4: (4, 1), 8: (8, n)}
    for i in range(n): cells[16 + 8 * i] = (8, a[1 + i])
    return [(st, Ptr(Region("vn%d" % e.nfresh, 16 + 8 * n, Init(cells), "obj"), 0))]
def c_rt(e, st, a, ins): return [(st, Ptr(e.rt, 0))]
def install(B, x, n, parts=None):
    """drop_obj/clone_obj/copy_obj on parts"""
    e = B.e; cell = Region("treated", 16, Init({0: (8, 0), 8: (8, 0)}), "struct"); B.cell = cell
    def each(off, nm, ghost):
        def c(e, st, a, ins):
            if not isinstance(a[0], Ptr) or a[0].r is not None:
                note(st, ghost, a[0]); return [(st, a[0] if nm == "clone_obj" else None)]
            if parts is not None: note(st, ghost, a[0]); return [(st, a[0] if nm == "clone_obj" else None)]
            k = e.read(st, cell, off, 8); e.check(st, And(And(sle(0, k), slt(k, n)), eq64(opaque(a[0]), x.at(k))), nm + ":each part once"); e.write(st, cell, off, 8, norm(add(k, 1)))
            return [(st, a[0] if nm == "clone_obj" else None)]
        c.__doc__ = "%s(part): the parts in turn, each once" % nm; return c
    def copy(e, st, a, ins):
        """copy_obj(part): a new value equal to it, with one reference"""
        note(st, "copied", a[0]); return [(st, Ptr(None, COPY(opaque(a[0]))))]
    e.rt = Region("runtime", None, Init(lazy=lambda e, st, off, k: z3.BitVec("rt_%s" % off, 8 * k) if E.isc(off) else None), "struct")
    e.contracts.update({"drop_obj": each(0, "drop_obj", "dropped"), "clone_obj": each(8, "clone_obj", "cloned"), "copy_obj": copy, "runtime_get": c_rt, "vn_list": c_vn, "fdmap_destroy": sole("fdmap_destroy")})
    for k in ("heap_free", "mmap_free", "runtime_fdmap_pop"): e.contracts[k] = sole(k)
def rc_of(B):
    if B.native: v = B.rng.choice((1, 1, 2, 3, 7)); B.log.append(("rc", v)); return v
    v = B.int("rc", 32, 1, 1 << 30); return v
# ---- natively: the value is a block of the guarded heap, its parts are atoms with several references
def native_obj(B, code, words, n=None, raw=None, mmod=0xff, rc=1):
    f = B.lib["__wrap_heap_alloc"]; f.restype = ctypes.c_void_p; f.argtypes = [ctypes.c_int64]
    size = 16 + 8 * len(words) + (len(raw) if raw else 0); a = f(size)
    B.wr(a, mmod, 1); B.wr(a + 1, 0, 1); B.wr(a + 2, code & 0xff, 1); B.wr(a + 3, 0, 1); B.wr(a + 4, rc, 4); B.wr(a + 8, len(words) if n is None else n, 8)
    for i, w in enumerate(words): B.wr(a + 16 + 8 * i, w, 8)
    if raw: ctypes.memmove(a + 16 + 8 * len(words), bytes(raw), len(raw))
    return a
def live(B): return ctypes.c_long.in_dll(B.lib, "rayvc_live").value
def nparts(B, k):
    B.rcs = [B.rng.choice((2, 3, 5)) for _ in range(k)]; hs = [B.atom("part%d" % i, "I64", rc=B.rcs[i]) if B.rng.random() < 0.5 else B.vec("part%d" % i, B.rng.choice(("I64", "C8", "F64")), B.rng.choice((0, 1, 3)), rc=B.rcs[i]) for i in range(k)]; return [h.p for h in hs]
def setmode(B):
    """counting atomically (worker threads) or not"""
    m = B.rng.choice((0, 1)); B.log.append(("atomic counts", m)); B.lib.rc_sync_set.argtypes = [ctypes.c_int64]; B.lib.rc_sync_set(m)
class O: pass
def mk(B, kind, code, n=None):
    """the value dropped or copied; .parts: its parts where their number is fixed"""
    x = O()
    if B.native:
        setmode(B); x.rc = rc_of(B)
        if kind == "list": k = B.rng.choice((0, 1, 2, 5, 9)); x.ps = nparts(B, k); x.p = native_obj(B, code, x.ps, rc=x.rc); x.n = k
        elif kind == "pair": x.ps = nparts(B, 2); x.p = native_obj(B, code, x.ps, rc=x.rc); x.n = 2
        elif kind == "lambda": x.ps = nparts(B, 8); x.p = native_obj(B, code, x.ps, n=0, rc=x.rc); x.n = 8
        elif kind == "atom": v = B.rng.getrandbits(64) & 1 if code == -1 & 255 else B.rng.getrandbits(63); x.v = v; x.ps = []; x.p = native_obj(B, code, [], n=v, rc=x.rc); x.n = 0
        else:
            w = WI[kind]; k = B.rng.choice((0, 1, 3, 8, 40)); raw = bytes(B.rng.getrandbits(1 if kind == "B8" else 8) for _ in range(k * w)); x.raw = raw; x.ps = []; x.p = native_obj(B, code, [], n=k, raw=raw, rc=x.rc); x.n = k
        x.live = live(B); B.x = x; return x
    x.rc = rc_of(B); o = None
    if kind == "list": x.n = B.int("n", 64, 0, 1 << 34); o = B.vec("x", "LIST", x.n, writable=True, rc=x.rc, code=code)
    elif kind == "pair": x.n = 2; o = B.vec("x", "LIST", 2, writable=True, rc=x.rc, code=code)
    elif kind == "lambda": o = B.vec("x", "LIST", 8, writable=True, rc=x.rc, code=code, cap=8); x.n = 8
    elif kind == "atom":
        x.v = z3.BitVec("v", 64); B.inputs["v"] = x.v
        o = O(); o.p = Ptr(Region("x", 16, Init({0: (1, 0xff), 1: (1, z3.BitVec("x.order", 8)), 2: (1, code), 3: (1, z3.BitVec("x.attrs", 8)), 4: (4, x.rc), 8: (8, x.v)}), "obj", writable=True), 0); x.n = 0
    else: x.n = B.int("n", 64, 0, LIM // 2); o = B.vec("x", kind, x.n, writable=True, rc=x.rc, code=code, w=WI[kind])
    x.o = o; x.p = o.p; x.at = getattr(o, "at", None)
    if kind in ("pair", "lambda"): x.parts = [x.at(i) for i in range(x.n)]
    install(B, x, x.n, getattr(x, "parts", None)); B.x = x; return x
def same_ptrs(got, want):
    got = [opaque(g) for g in got]
    return len(got) == len(want) and sorted(str(norm(g)) for g in got) == sorted(str(norm(S.bv(w, 64))) for w in want)
def sym_ghost(V, k): return V.st.ghost.get(k, ())
def drop(name, kind, code):
    def setup(B): return [mk(B, kind, code).p]
    def post(V, r):
        x = V.B.x
        if V.native:
            rcs = [V.rd(p, 4, 4) for p in x.ps]; lv = live(V.B)
            if x.rc == 1:
                V.check("released once", lv == x.live - 1); V.check("each part dropped once", rcs == [c - 1 for c in V.B.rcs] if x.ps else True)
            else:
                V.check("one reference less", V.rd(x.p, 4, 4) == x.rc - 1); V.check("nothing released", lv == x.live); V.check("the parts keep their references", rcs == V.B.rcs if x.ps else True)
            V.B.lib.rc_sync_set(0); return
        rel, dr = sym_ghost(V, "released"), sym_ghost(V, "dropped"); cnt = V.e.read(V.st, V.B.cell, 0, 8)
        def last():
            V.check("released once", len(rel) == 1 and rel[0][0] == "heap_free" and isinstance(rel[0][1], Ptr) and rel[0][1].r is x.p.r and eq64(rel[0][1].o, 0))
            if kind == "list": V.check("each part dropped once", eq64(cnt, x.n)); V.check("each part dropped once", len(dr) == 0)
            else: V.check("each part dropped once", same_ptrs(dr, getattr(x, "parts", [])))
        def not_last():
            V.check("nothing released", len(rel) == 0); V.check("the parts keep their references", len(dr) == 0 and eq64(cnt, 0)); V.check("one reference less", eq(V.rc(x.p), sub(x.rc, 1, 32), 32))
            kept(V, x, kind)
        V.case(eq(x.rc, 1, 32), last); V.case(Not(eq(x.rc, 1, 32)), not_last)
    return Inst("drop_obj(%s)" % name, "drop_obj", setup, post, module="rayforce", opts=dict(guess=True), nat=dict(runtime=True))
def kept(V, x, kind):
    """type and contents as before"""
    if kind == "atom": V.check("value kept", eq64(V.rd(x.p, 8, 8), x.v)); return
    if kind in ("pair", "lambda"):
        for i, p in enumerate(x.parts): V.check("contents kept", eq64(opaque_(V.el(x.p, i, 8)), p))
        return
    w = 8 if kind == "list" else WI[kind]
    V.check("length kept", eq64(V.len(x.p), x.n)); V.forall("old", 0, x.n, lambda y: V.check("contents kept", eq(opaque_(V.el(x.p, y, w)), x.at(y), 8 * w)))
def opaque_(v): return opaque(v) if isinstance(v, Ptr) else v
def clone(name, kind, code):
    def setup(B): return [mk(B, kind, code).p]
    def post(V, r):
        x = V.B.x
        if V.native:
            V.check("the value itself", r == x.p); V.check("one reference more", V.rd(x.p, 4, 4) == x.rc + 1); V.check("nothing released", live(V.B) == x.live); V.B.lib.rc_sync_set(0); return
        V.check("the value itself", isinstance(r, Ptr) and r.r is x.p.r and eq64(r.o, 0)); V.check("one reference more", eq(V.rc(x.p), add(x.rc, 1, 32), 32)); kept(V, x, kind)
        V.check("nothing released", not sym_ghost(V, "released") and not sym_ghost(V, "dropped"))
    return Inst("clone_obj(%s)" % name, "clone_obj", setup, post, module="rayforce", nat=dict(runtime=True))
def count(name, kind, code):
    def setup(B): return [mk(B, kind, code).p]
    def post(V, r):
        x = V.B.x; V.check("the number of references", eq(r, x.rc, 32))
        if V.native: V.B.lib.rc_sync_set(0)
    return Inst("rc_obj(%s)" % name, "rc_obj", setup, post, module="rayforce", nat=dict(runtime=True))
def equal_copy(V, r, x, kind, code, name):
    """r is a new value equal to x"""
    if V.native:
        V.check("a value of its own", r != x.p); V.check("one reference", V.rd(r, 4, 4) == 1); V.check("type", V.typ(r) == code & 255)
        rcs = [V.rd(p, 4, 4) for p in x.ps]
        if kind == "atom": w = WI[name]; V.check("value", V.rd(r, 8, w) == x.v & ((1 << 8 * w) - 1)); return
        V.check("length", V.len(r) == x.n)
        if kind == "list": V.check("the same parts", [V.el(r, i, 8) for i in range(x.n)] == x.ps); V.check("each part has one reference more", rcs == [c + 1 for c in V.B.rcs] if x.ps else True)
        elif kind == "pair":
            ps = [V.el(r, i, 8) for i in range(2)]; V.check("parts of its own", ps[0] not in x.ps and ps[1] not in x.ps and ps[0] != ps[1]); V.check("the parts keep their references", rcs == V.B.rcs)
            V.check("equal parts", [V.rd(p, 8, 8) for p in ps] == [V.rd(p, 8, 8) for p in x.ps])
        else: V.check("the same elements", ctypes.string_at(r + 16, len(x.raw)) == x.raw)
        return
    V.check("a value of its own", isinstance(r, Ptr) and r.r is not None and r.r is not x.p.r); V.check("one reference", eq(V.rc(r), 1, 32)); V.check("type", eq(V.typ(r), code & 255, 8))
    V.check("nothing released", not sym_ghost(V, "released") and not sym_ghost(V, "dropped")); cl, cp = sym_ghost(V, "cloned"), sym_ghost(V, "copied")
    if kind == "atom": w = WI[name]; V.check("value", eq(V.rd(r, 8, w), S.trunc(x.v, 64, 8 * w) if w < 8 else x.v, 8 * w)); return
    V.check("length", eq64(V.len(r), x.n))
    if kind == "list":
        V.forall("elem", 0, x.n, lambda y: V.check("the same parts", eq64(opaque_(V.el(r, y, 8)), x.at(y)))); V.check("each part has one reference more", And(eq64(V.e.read(V.st, V.B.cell, 8, 8), x.n), len(cl) == 0))
    elif kind == "pair":
        for i in range(2): V.check("equal parts", eq64(opaque_(V.el(r, i, 8)), COPY(S.bv(x.parts[i], 64))))
        V.check("each part copied once", same_ptrs(cp, x.parts) and not cl)
    else: w = WI[kind]; V.forall("elem", 0, x.n, lambda y: V.check("the same elements", eq(V.el(r, y, w), x.at(y), 8 * w)))
def untouched(V, x, kind):
    if V.native: V.check("the original keeps its references", V.rd(x.p, 4, 4) == x.rc); return
    V.check("the original keeps its references", eq(V.rc(x.p), x.rc, 32)); kept(V, x, kind)
def copy(name, kind, code):
    def setup(B): return [mk(B, kind, code).p]
    def post(V, r):
        x = V.B.x; equal_copy(V, r, x, kind, code, name); untouched(V, x, kind)
        if V.native: V.B.lib.rc_sync_set(0)
    return Inst("copy_obj(%s)" % (("-" if kind == "atom" else "") + name), "copy_obj", setup, post, module="rayforce", nat=dict(runtime=True))
def cow(name, kind, code):
    def setup(B):
        x = mk(B, kind, code)
        if not B.native:
            def c(e, st, a, ins):
                """copy_obj(x): a new value equal to x with one reference (proved above)"""
                e.check(st, isinstance(a[0], Ptr) and a[0].r is x.p.r, "copy_obj:of the value"); note(st, "copied", a[0])
                cells = {0: (1, 0xff), 1: (1, 0), 2: (1, code & 255), 3: (1, z3.BitVec("copy.attrs", 8)), 4: (4, 1), 8: (8, z3.BitVec("copy.len", 64))}
                return [(st, Ptr(Region("copy", 16, Init(cells), "obj"), 0))]
            B.e.contracts["copy_obj"] = c
        return [x.p]
    def post(V, r):
        x = V.B.x; shared = code == 20
        if V.native:
            if x.rc == 1 and not shared: V.check("its only owner gets the value itself", r == x.p); V.check("no copy", live(V.B) == x.live)
            else: equal_copy(V, r, x, kind, code, name)
            untouched(V, x, kind); V.B.lib.rc_sync_set(0); return
        own = isinstance(r, Ptr) and r.r is x.p.r; cp = sym_ghost(V, "copied")
        V.check("a shared value is copied", isinstance(r, Ptr) and r.r is not None)
        if own: V.check("only its only owner gets the value itself", And(not shared, eq(x.rc, 1, 32))); V.check("no copy", not cp)
        else: V.check("the copy", r.r.name == "copy" and len(cp) == 1); V.check("one reference", eq(V.rc(r), 1, 32)); V.check("its only owner gets the value itself", Or(shared, Not(eq(x.rc, 1, 32))))
        V.check("nothing released", not sym_ghost(V, "released") and not sym_ghost(V, "dropped")); untouched(V, x, kind)
    return Inst("cow_obj(%s)" % (("-" if kind == "atom" else "") + name), "cow_obj", setup, post, module="rayforce", nat=dict(runtime=True) , **(dict(native=False) if code == 20 else {}))
# ---- values that change: what is replaced, stored, handed out
SETS = ["I64", "SYMBOL", "TIMESTAMP", "F64", "C8"]
def change(fn, name, listy):
    """set_idx, ins_obj, push_obj: the value val (one reference of it is handed over) is stored in *obj"""
    code = 0 if listy else CODE[name]; w = 8 if listy else WI[name]; vt = "I64" if listy else name
    def setup(B):
        x = O()
        if B.native:
            setmode(B); k = B.rng.choice((0, 1, 2, 5, 9)) if fn != "ins_obj" else B.rng.choice((1, 2, 5, 9)); x.n = k; x.rc = 1
            x.ps = nparts(B, k) if listy else [B.rng.getrandbits(8 * w) for _ in range(k)]
            x.p = native_obj(B, code, [], n=k, raw=b"".join(v.to_bytes(w, "little") for v in x.ps))
            x.i = B.rng.randint(-1, k + 1) if fn == "set_idx" else B.rng.randrange(k) if fn == "ins_obj" else k; B.log.append(("index", x.i)); x.val = B.atom("val", vt, rc=2); x.live = live(B)
        else:
            x.n = B.int("n", 64, 0, 1 << 33); x.rc = rc_of(B); o = B.vec("x", "LIST" if listy else name, x.n, writable=True, rc=x.rc, code=code, w=w); x.o, x.p, x.at = o, o.p, o.at
            x.i = B.int("i", 64) if fn != "push_obj" else x.n; x.val = B.atom("val", vt)
            if fn == "ins_obj": B.assume(And(sle(0, x.i), slt(x.i, x.n)))
            install(B, x, x.n, []); 
            def realloc(e, st, a, ins):
                """heap_realloc(p, n): a block of n bytes that begins with those of p; p is no longer used"""
                old, m = a; e.check(st, And(isinstance(old, Ptr) and old.r is x.p.r and eq64(old.o, 0), And(sle(16, m), slt(m, 1 << 40))), "heap_realloc:block and size"); note(st, "gone", old)
                e.nfresh += 1; tag = "re%d" % e.nfresh
                r = Region("realloc." + tag, m, Init(lazy=lambda eng, s2, off, k: z3.Function("heap_%s_%d" % (tag, k), B64, z3.BitVecSort(8 * k))(S.bv(off, 64))), "obj")
                st.mem[r.id] = (E.C(0, If(slt(old.r.size, m), old.r.size, m, 64), old.r, st.mem.get(old.r.id), 0), None); return [(st, Ptr(r, 0))]
            B.e.contracts["heap_realloc"] = realloc
        x.cell = B.struct("cell", 8, {0: (8, x.p)}); B.x = x
        return [x.cell.p, x.i & mask(64) if B.native else x.i, x.val.p] if fn != "push_obj" else [x.cell.p, x.val.p]
    def post(V, r):
        x = V.B.x; i = x.i; n = x.n; grown = fn == "push_obj"
        if V.native:
            ok = fn != "set_idx" or 0 <= i < n; q = V.rd(x.cell.p, 0, 8); drops = 2 - V.rd(x.val.p, 4, 4); V.B.lib.rc_sync_set(0)
            V.check("val handed over", drops == (0 if listy and ok else 1)); V.check("nothing released", live(V.B) == x.live)
            want = list(x.ps)
            if ok: want[i:i + 1] = [x.val.p if listy else x.val.v & mask(8 * w)]
            V.check("contents", V.len(q) == len(want) and [V.el(q, k, w) for k in range(len(want))] == want); V.check("result", r == q if ok else V.iserr(r))
            if listy: V.check("only the part replaced is dropped", [V.rd(p, 4, 4) for p in x.ps] == [c - (1 if fn == "set_idx" and ok and k == i else 0) for k, c in enumerate(V.B.rcs)])
            return
        q = V.rd(x.cell.p, 0, 8); dr, rel, cl = (sym_ghost(V, k) for k in ("dropped", "released", "cloned")); isval = lambda p: isinstance(p, Ptr) and p.r is x.val.p.r
        V.check("nothing released", not rel and not cl)
        def done():
            V.check("the same value" if not grown else "the value, grown", isinstance(q, Ptr) and q.r is not None and (q.r is x.p.r) != grown and isinstance(r, Ptr) and r.r is q.r)
            V.check("length", eq64(V.len(q), add(n, 1) if grown else n)); V.check("type", eq(V.typ(q), code, 8))
            got = V.el(q, i, w); V.check("val stored", isval(got) if listy else eq(got, x.val.v, 8 * w))
            V.forall("other", 0, n, lambda y: V.case(Not(eq64(y, i)), lambda: V.check("the others as before", eq(opaque_(V.el(q, y, w)), x.at(y), 8 * w))))
            if listy:
                V.check("val handed over", not any(isval(d) for d in dr))
                if fn == "set_idx": V.check("only the part replaced is dropped", len(dr) == 1 and eq64(opaque(dr[0]), x.at(i)))
                else: V.check("nothing dropped", not dr)
            else: V.check("val handed over", len(dr) == 1 and isval(dr[0]))
        def refused():
            V.check("error", V.iserr(r)); V.check("val handed over", len(dr) == 1 and isval(dr[0])); V.check("the same value", isinstance(q, Ptr) and q.r is x.p.r); kept(V, x, "list" if listy else name)
        if fn != "set_idx": done(); return
        ok = And(sle(0, i), slt(i, n)); V.case(ok, done); V.case(Not(ok), refused)
    return Inst("%s(%s)" % (fn, "LIST" if listy else name), fn, setup, post, module="rayforce", nat=dict(runtime=True))
def hand_out():
    """at_idx of a list: one more reference to the part"""
    def setup(B):
        x = mk(B, "list", 0)
        if B.native: i = B.rng.randint(-x.n - 1, x.n)
        else: i = B.int("i", 64); B.e.contracts["clone_obj"] = B.e.contracts["drop_obj"] = None; install(B, x, x.n, [])
        x.i = i; return [x.p, i & mask(64) if B.native else i]
    def post(V, r):
        x = V.B.x; i, n = x.i, x.n
        if V.native:
            k = i + n if i < 0 else i; ok = 0 <= k < n; rcs = [V.rd(p, 4, 4) for p in x.ps]; V.B.lib.rc_sync_set(0)
            V.check("the part", r == x.ps[k] if ok else True); V.check("one reference more to it", rcs == [c + (1 if ok and j == k else 0) for j, c in enumerate(V.B.rcs)] if x.ps else True); return
        cl, dr = sym_ghost(V, "cloned"), sym_ghost(V, "dropped"); k = If(slt(i, 0), add(i, n), i, 64); ok = And(sle(0, k), slt(k, n))
        V.case(ok, lambda: V.check("one reference more to the part", len(cl) == 1 and And(eq64(opaque(cl[0]), x.at(k)), eq64(opaque_(r), x.at(k))))); V.check("nothing dropped", not dr); kept(V, x, "list")
    return Inst("at_idx(LIST)", "at_idx", setup, post, module="rayforce", nat=dict(runtime=True))
def in_place(fn, rec, argc, ilen, ioff, tps):
    """the result of an element-wise operation takes the place of an operand only if nothing else refers to it"""
    import contracts.c09 as P
    def build(B, L):
        hs = [P.header(B, "xy"[i], t, L, rc_of(B) if B.native else B.int("rc%d" % i, 32, 1, 1 << 30)) for i, t in enumerate(tps)]
        B.rcv = [B.log[-1 - 2 * (len(tps) - 1 - i)][1] if B.native else B.inputs["rc%d" % i] for i in range(len(tps))]
        if B.native: B.rcv = [int.from_bytes(ctypes.string_at(h.p + 4, 4), "little") for h in hs]
        return dict(enumerate(hs)), hs
    def one(e, st, a, ins):
        """pool_split_by: 1 (the choice of the result's place does not depend on it; C09 has every other answer)"""
        return [(st, 1)]
    def retchk(V, r):
        for i, o in V.B.h["ops"].items():
            if isinstance(r, Ptr) and r.r is o.p.r: V.check("only its only reference is reused", eq(V.B.rcv[i], 1, 32))
    def natpost(V, r, h):
        for i, o in h["ops"].items(): V.check("only its only reference is reused", r != o.p or V.B.rcv[i] == 1)
    return P.driver("%s(%s,in place)" % (fn, ",".join(tps)), fn, "math", rec, argc, ilen, ioff, build, "map", retchk=retchk, natpost=natpost, extra_contracts=lambda sp: {"pool_split_by": one})
def extra():
    import contracts.c09 as P
    return P.extra()
def instances(tier="quick"):
    out = []
    for t in ATOMS: out += [drop("-" + t, "atom", -CODE[t] & 255), copy(t, "atom", -CODE[t] & 255)]
    for t in VECS: out += [drop(t, t, CODE[t]), copy(t, t, CODE[t]), cow(t, t, CODE[t])]
    for t, c in LISTS.items(): out.append(drop(t, "list", c))
    out += [copy("LIST", "list", 0), cow("LIST", "list", 0), cow("ENUM", "pair", 20), cow("I64", "atom", -5 & 255)]
    for t, c in PAIRS.items(): out.append(drop(t, "pair", c))
    for t in ("TABLE", "DICT"): out += [copy(t, "pair", PAIRS[t]), cow(t, "pair", PAIRS[t])]
    out.append(drop("LAMBDA", "lambda", 100))
    for nm, k, c in (("I64", "I64", 5), ("LIST", "list", 0), ("-I64", "atom", -5 & 255)): out += [clone(nm, k, c), count(nm, k, c)]
    out += [change("set_idx", t, False) for t in SETS] + [change("set_idx", "LIST", True), change("push_obj", "LIST", True), change("ins_obj", "LIST", True), hand_out()]
    out += [change("ins_obj", t, False) for t in VECS if t != "GUID"] + [change("push_obj", t, False) for t in ("B8", "U8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "SYMBOL", "F64", "C8")]
    out += [in_place("unop_map", "rayvc_rec4", 4, 1, 2, ["F64"]), in_place("binop_map", "rayvc_rec5", 5, 2, 3, ["I64", "I64"]), in_place("binop_map", "rayvc_rec5", 5, 2, 3, ["I32", "F64"])]
    return out
