"""C09: work handed to the thread pool covers every row exactly once.
The drivers are verified against contracts on the pool: pool_prepare sets a ghost cursor to 0, every pool_add_task must continue exactly at the
cursor with the same function and operands and stay within the input, pool_run requires the cursor to have reached the end."""
import z3
from spec import *
import sym as S
from contract import Inst, CODE, WIDTH, LIM, NAME, Obj
from engine import Ptr, Region, Init, FnPtr, Fork, Unsupported
M64 = (1 << 64) - 1
NMAX = 1 << 20           # executors
def extra():
    return {"rayvc_off": '#include "core/runtime.h"\n#include "core/pool.h"\n#include <stddef.h>\nlong rayvc_off_pool(void) { return offsetof(struct runtime_t, pool); }\n'
            'long rayvc_off_execs(void) { return offsetof(struct pool_t, executors_count); }\nlong rayvc_thresh(void) { return RAY_PAGE_SIZE * 4; }\n'}
def const(B, name):
    """value of a constant function of the extra module"""
    if B.native:
        import ctypes as C
        f = getattr(B.lib, name); f.restype = C.c_long; return f()
    import re
    f = B.e.w.func(name, "rayvc_off"); return int(re.search(r"ret i64 (\d+)", "\n".join(f._body)).group(1))
def asint(v): return v.o if isinstance(v, Ptr) and v.r is None else v
def sle(a, b): return S.icmp("sle", a, b, 64)
def sge(a, b): return S.icmp("sge", a, b, 64)
def sgt(a, b): return S.icmp("sgt", a, b, 64)
def same_arg(e, st, a, b):
    """operand identity (pointers: same object and offset)"""
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            if a == 0 or b == 0: a, b = (b, a) if isinstance(b, Ptr) else (a, b); return a.r is None
            return False
        if a.r is None or b.r is None: return a.r is b.r
        if isinstance(a.r, FnPtr) or isinstance(b.r, FnPtr): return isinstance(a.r, FnPtr) and isinstance(b.r, FnPtr) and a.r.name == b.r.name
        return S.icmp("eq", a.o, b.o, 64) if a.r is b.r else False
    w = a.size() if not isc(a) else b.size() if not isc(b) else 64
    return S.icmp("eq", a, b, w)
class Split:
    """contracts on the pool for one driver; argc/ilen/ioff: task arity and the positions of length and offset; end: the task carries the end instead of the length;
    others(e, st, i, v): is v the operand expected at argument i?  kern: how the driver's kernel is called directly when there is one worker"""
    def __init__(s, fn, argc, ilen, ioff, L, operand, kern=None, end=False, result="list", direct=True, cell=None):
        s.fn, s.argc, s.ilen, s.ioff, s.L, s.operand, s.end, s.result = fn, argc, ilen, ioff, L, operand, end, result
        s.parts = {}
    def setup(s, B):
        s.B = B
        if B.native: return
        s.cell = Region("cursor", 16, Init({0: (8, M64), 8: (8, M64)}), "struct", writable=True)   # cursor, number of the input pool_prepare was called for
        s.pool = Region("pool", 1 << 30, Init({const(B, "rayvc_off_execs"): (8, B.st_n)}, lazy=lambda e, st, off, n: z3.BitVec("pool_%s" % off, 8 * n) if isc(off) else None), "struct", writable=False)
    def cur(s, e, st): return e.read(st, s.cell, 0, 8)
    def contracts(s):
        def prepare(e, st, a, ins):
            """pool_prepare: starts a new set of tasks"""
            e.write(st, s.cell, 0, 8, 0); return [(st, None)]
        def add_task(e, st, a, ins):
            """pool_add_task(pool, fn, argc, ...): the task continues at the cursor, within the input, with the same function and operands"""
            nm = "pool_add_task:"
            e.check(st, isinstance(a[0], Ptr) and a[0].r is s.pool, nm + "pool")
            e.check(st, same_arg(e, st, a[1], s.fn), nm + "function")
            e.check(st, eq(a[2], s.argc, 64) if not isc(a[2]) else a[2] == s.argc, nm + "argc")
            if len(a) < 3 + s.argc: raise Unsupported("pool_add_task with %d arguments" % len(a))
            s.task(e, st, a[3:], nm)
            return [(st, None)]
        def run(e, st, a, ins):
            """pool_run: every row has been handed out; returns the list of the results in task order, or the first error"""
            e.check(st, eq(s.cur(e, st), s.len(e, st), 64), "pool_run:every row handed out")
            e.write(st, s.cell, 0, 8, M64)
            st.ghost["ran"] = st.ghost.get("ran", 0) + 1
            n = e.fresh("ntasks", 64); st.assume(sge(n, 1)); st.assume(S.icmp("slt", n, 1 << 30, 64))
            r = Region("results", None, Init({2: (1, 0), 3: (1, 0), 0: (1, 0xff), 8: (8, n)}, lazy=lambda e, st, off, k: z3.BitVec("res_%s" % off, 8 * k) if isc(off) else None), "obj")
            er = st.copy(); er.ghost["poolerr"] = True
            st.ghost["results"] = r
            return [(st, Ptr(r, 0)), (er, e.glob(e.w.mod("rayforce"), "__ERR_OBJ"))]
        def split(e, st, a, ins):
            """pool_split_by(pool, len, groups): 1 <= result <= executors; 1 when there is no pool or the input is short (proved separately)"""
            e.check(st, sge(a[1], 0), "pool_split_by:length")
            n = e.fresh("nsplit", 64); st.assume(sge(n, 1)); st.assume(sle(n, s.B.st_n)); st.assume(Implies(S.icmp("slt", a[1], s.thresh, 64), eq(n, 1, 64)))
            st.assume(Or(eq(n, 1, 64), S.icmp("slt", n, a[1], 64)))
            return [(st, n)]
        def chunk(e, st, a, ins):
            """pool_chunk_aligned(len, n, size): positive unless len is 0; len itself when n <= 1; less than len + one page and n chunks cover len (proved separately)"""
            e.check(st, And(sge(a[0], 0), S.icmp("slt", a[0], LIM * 4, 64)), "pool_chunk_aligned:length")
            e.check(st, And(sge(a[2], 0), sle(a[2], 64)), "pool_chunk_aligned:size")
            c = e.fresh("chunk", 64); st.assume(sge(c, 0)); st.assume(S.icmp("slt", c, LIM * 8, 64))
            st.assume(Implies(sgt(a[0], 0), sge(c, 1))); st.assume(Implies(Or(sle(a[1], 1), sle(a[2], 0)), eq(c, a[0], 64)))
            return [(st, c)]
        def call(e, st, a, ins):
            """pool_call_task_fn(fn, argc, argv): calls fn on the argc values of argv (proved separately)"""
            e.check(st, same_arg(e, st, a[0], s.fn) is True or (s.fold_fn is not None and same_arg(e, st, a[0], s.fold_fn) is True), "pool_call_task_fn:function")
            n = a[1]
            if not isc(n): raise Unsupported("pool_call_task_fn arity")
            argv = [e.read(st, a[2].r, norm_add(a[2].o, 8 * i), 8) for i in range(n)]
            if s.fold_fn is not None and same_arg(e, st, a[0], s.fold_fn) is True: return s.fold(e, st, argv, "pool_call_task_fn:")
            return s.direct(e, st, argv, "pool_call_task_fn:")
        def execs(e, st, a, ins):
            """pool_get_executors_count: at least one"""
            return [(st, s.B.st_n)]
        def pget(e, st, a, ins):
            """pool_get: the pool of the runtime"""
            return [(st, Ptr(s.pool, 0))]
        c = {"pool_prepare": prepare, "pool_add_task": add_task, "pool_run": run, "pool_split_by": split, "pool_split_by_mem": split, "pool_chunk_aligned": chunk, "pool_call_task_fn": call,
             "pool_get_executors_count": execs, "pool_get": pget}
        return c
    fold_fn = None; thresh = 16384
    def fold(s, e, st, t, nm):
        """folding the partial results: the whole unified list, 3 arguments"""
        r = st.ghost.get("results2")
        e.check(st, r is not None and isinstance(t[0], Ptr) and t[0].r is r and S.icmp("eq", t[0].o, 0, 64), nm + "folds the partial results")
        if r is not None: e.check(st, And(eq(asint(t[2]), 0, 64), eq(asint(t[1]), e.read(st, r, 8, 8), 64)), nm + "folds every partial result")
        return s.kres(e, st)
    def kres(s, e, st):
        e.nfresh += 1
        k = Region("kres%d" % e.nfresh, None, Init({2: (1, 0xfb)}, lazy=lambda e, st, off, k, nm="kres%d" % e.nfresh: z3.BitVec("%s_%s" % (nm, off), 8 * k) if isc(off) else None), "obj")
        st.ghost["kres"] = k
        er = st.copy(); er.ghost["poolerr"] = True
        return [(st, Ptr(k, 0)), (er, e.glob(e.w.mod("rayforce"), "__ERR_OBJ"))]
    def len(s, e, st): return s.L
    def task(s, e, st, t, nm):
        L = s.len(e, st)
        off, ln = asint(t[s.ioff]), asint(t[s.ilen])
        if s.end: ln = sub(ln, off, 64)
        c = s.cur(e, st)
        e.check(st, eq(off, c, 64), nm + "starts where the previous task ended")
        e.check(st, And(sge(ln, 0), sle(ln, L)), nm + "length")
        e.check(st, sle(add(off, ln, 64), L), nm + "inside the input")
        for i in range(s.argc):
            if i not in (s.ioff, s.ilen): e.check(st, s.operand(e, st, i, t[i], off), nm + "operand %d" % i)
        e.write(st, s.cell, 0, 8, S.norm(add(off, ln, 64)))
    def direct(s, e, st, t, nm):
        """the kernel called directly: on the whole input"""
        L = s.len(e, st)
        off, ln = asint(t[s.ioff]), asint(t[s.ilen])
        r = st.ghost.get("results2")
        if r is not None and isinstance(t[0], Ptr) and t[0].r is r:
            # folding the partial results
            e.check(st, And(eq(off, 0, 64), eq(ln, e.read(st, r, 8, 8), 64)), nm + "folds every partial result")
            for i in range(1, s.argc):
                if i not in (s.ioff, s.ilen): e.check(st, s.operand(e, st, i, t[i], off), nm + "operand %d" % i)
        else:
            if s.end: ln = sub(ln, off, 64)
            e.check(st, And(eq(off, 0, 64), eq(ln, L, 64)), nm + "whole input")
            for i in range(s.argc):
                if i not in (s.ioff, s.ilen): e.check(st, s.operand(e, st, i, t[i], off), nm + "operand %d" % i)
            st.ghost["ran"] = st.ghost.get("ran", 0) + 1
        return s.kres(e, st)
def norm_add(a, b): return S.norm(S.binop("add", a, b, 64))
def runtime_global(s):
    def g(eng, name):
        rt = Region("RT", 1 << 20, Init({const(s.B, "rayvc_off_pool"): (8, Ptr(s.pool, 0))}, lazy=lambda e, st, off, n: z3.BitVec("rt_%s" % off, 8 * n) if isc(off) else None), "struct", writable=False)
        return Ptr(Region("@__RUNTIME", 8, Init({0: (8, Ptr(rt, 0))}), "global", writable=False), 0)
    return g
def inv_cursor(hold):
    """loop invariant: the cursor is min(offset, L) for the loop's offset variable"""
    def f(e, sm, t):
        sp = hold.get("sp")
        if sp is None: return []
        L = sp.L; out = []
        cs = [sm.cur(v, t) for v in sm.vars if not isinstance(v.key, str) and v.key[0] == sp.cell.id]
        for v in sm.vars:
            if isinstance(v.key, str) and v.kind != "inv" and not v.isptr and v.w == 64:
                o = sm.cur(v, t)
                for c in cs: out += [eq(c, If(sle(o, L), o, L, 64), 64), eq(c, o, 64)]
        return out
    return f
# ------------------------------------------------------------------------------------------------ drivers
def nat_log(V):
    """tasks recorded by the stand-in kernel: (len, off)"""
    import ctypes as C
    lib = V.lib; n = C.c_long.in_dll(lib, "rayvc_nrec").value; a = (C.c_long * (3 * 4096)).in_dll(lib, "rayvc_rec")
    return [(a[3 * i], a[3 * i + 1], a[3 * i + 2]) for i in range(min(n, 4096))]
def nat_cover(V, L, extra_ok=0):
    log = sorted((o, l) for l, o, k in nat_log(V) if k == 0); c = 0
    for o, l in log:
        V.check("tasks in order, disjoint and within the input", o == c and l >= 0 and o + l <= L); c = o + l
    V.check("every row handed out", c == L)
def reset(B, x=0, y=0, out=0):
    import ctypes as C
    for n, v in (("rayvc_nrec", 0), ("rayvc_rx", x), ("rayvc_ry", y)): C.c_long.in_dll(B.lib, n).value = v
def rows(B):
    """a length: natively also around multiples of pages and of the split threshold"""
    if B.native:
        k = B.rng.random(); r = B.rng.randint
        v = r(0, 40) if k < 0.1 else r(16380, 16400) if k < 0.25 else r(16384, 70000) if k < 0.75 else 512 * r(32, 200) + r(-3, 3)
        B.log.append(("L", v)); return v
    return B.int("L", 64, 0, LIM)
def header(B, name, tp, L, rc=None, w=None):
    """an object header of type tp and length L (its elements are not touched by the drivers)"""
    code = CODE[tp] if not isinstance(tp, int) else tp & 0xff
    cells = {0: (1, 0xff), 1: (1, 0), 2: (1, code), 3: (1, 0), 4: (4, rc if rc is not None else 7), 8: (8, L)}
    h = B.struct(name, 32, cells, writable=True); h.n = L; h.tp = tp
    return h
def c_alloc(e, st, a, ins):
    import contract
    r = contract.c_heap_alloc(e, st, a, ins)
    for s2, p in r: s2.ghost["outobj"] = p
    return r
def c_clone(e, st, a, ins):
    import contract
    r = contract.c_clone(e, st, a, ins)
    for s2, p in r: s2.ghost["outobj"] = p
    return r
def c_unify(e, st, a, ins):
    """unify_list(&v): the list as a vector of the same length (one element per task)"""
    p = e.read(st, a[0].r, a[0].o, 8)
    ok = isinstance(p, Ptr) and p.r is st.ghost.get("results")
    e.check(st, ok, "unify_list:results")
    n = e.read(st, p.r, 8, 8)
    r = Region("unified", None, Init({2: (1, 5), 8: (8, n)}, lazy=lambda e, st, off, k: z3.BitVec("uni_%s" % off, 8 * k) if isc(off) else None), "obj")
    st.ghost["results2"] = r
    return [(st, Ptr(r, 0))]
def driver(name, fn, module, recname, argc, ilen, ioff, build, kind, outtype=None, fold_fn=None, opidx=0, extra_contracts=None, opts=None, native=True, end=False, retchk=None, args=None, natpost=None, natsetup=None):
    """build(B, L) -> (operand objects {position: Obj}, driver arguments without the function)"""
    hold = {}
    def setup(B):
        L = rows(B); B.st_n = B.int("execs", 64, 1, NMAX) if not B.native else 1
        ops, argv = build(B, L); h = dict(L=L, ops=ops)
        f = B.fn(recname) if not B.native or recname.startswith("rayvc") else 0
        if B.native:
            xs = [o.p for o in ops.values()]
            reset(B, xs[0] if xs else 0, xs[1] if len(xs) > 1 else 0)
        else:
            def operand(e, st, i, v, off):
                if i in ops: return same_arg(e, st, v, ops[i].p if isinstance(ops[i], Obj) else ops[i])
                if kind == "map" and i == argc - 1:
                    o = st.ghost.get("outobj"); return o is not None and same_arg(e, st, v, o)
                if args: return args(e, st, i, v, off, h)
                return False
            sp = Split(f, argc, ilen, ioff, L, operand, end=end); sp.setup(B); sp.fold_fn = B.fn(fold_fn) if fold_fn else None
            sp.thresh = const(B, "rayvc_thresh")
            cs = sp.contracts()
            cs[recname] = lambda e, st, a, ins: sp.direct(e, st, list(a), recname + ":")
            if fold_fn: cs[fold_fn] = lambda e, st, a, ins: sp.fold(e, st, list(a), fold_fn + ":")
            cs["unify_list"] = c_unify; cs["heap_alloc"] = c_alloc; cs["clone_obj"] = c_clone
            if extra_contracts: cs.update(extra_contracts(sp))
            B.e.contracts.update(cs); B.e.contracts.pop(fn, None)
            B.e.global_init["__RUNTIME"] = runtime_global(sp)
            hold["sp"] = sp
        B.h = h
        return argv[:opidx] + [f] + argv[opidx:] if opidx is not None else argv
    def post(V, ret):
        h = V.B.h; L = h["L"]
        if V.native:
            if natpost: natpost(V, ret, h); return
            nat_cover(V, L)
            if kind == "map" and not V.iserr(ret):
                V.check("length of the result", V.len(ret) == L)
                if outtype: V.check("type of the result", V.typ(ret) == outtype(h) & 0xff)
            if kind == "fold" and not V.iserr(ret): V.check("partial results folded", V.av(ret, 8) == L)
            return
        st = V.st
        if st.ghost.get("poolerr"):
            return
        V.check("work ran exactly once", st.ghost.get("ran", 0) == 1 or S.icmp("eq", L, 0, 64))
        if kind == "map":
            o = st.ghost.get("outobj")
            V.check("returns the vector the workers filled", same_arg(V.e, st, ret, o))
            V.check("length of the result", eq(V.len(ret), L, 64))
            if outtype: V.check("type of the result", eq(V.typ(ret), outtype(h) & 0xff, 8))
        if kind == "fold":
            k = st.ghost.get("kres"); V.check("returns the folded result", isinstance(ret, Ptr) and ret.r is k)
        if retchk: retchk(V, ret)
    opts = dict(opts or {}); opts["invs"] = [inv_cursor(hold)] + list(opts.get("invs", []))
    return Inst(name, fn, setup, post, module=module, opts=opts, native=native, nat=dict(cores=[1, 2, 3, 5, 7, 8]))

# ------------------------------------------------------------------------------------------------ the pool's own decisions
def pool_struct(B, execs): return B.struct("pool", 4096, {const(B, "rayvc_off_execs"): (8, execs)}, writable=False)
def split_mem(legacy, nul=False):
    fn = "pool_split_by" if legacy else "pool_split_by_mem"
    def setup(B):
        ex = B.int("execs", 64, 1, NMAX); L = B.int("L", 64, 0, LIM * 4); g = B.int("groups", 64, 0, LIM); t = B.int("tsize", 64, 0, 4096)
        B.h = (ex, L); p = B.null() if nul else pool_struct(B, ex)
        if B.native and B.rng.random() < 0.7: L = B.rng.randint(0, 100000); B.log.append(("L", L)); B.h = (ex, L)
        return [p, L, g] + ([] if legacy else [t])
    def post(V, r):
        ex, L = V.B.h
        V.check("at least one, no more than the pool has", And(sge(r, 1), sle(r, ex)))
        if nul: V.check("no pool", eq(r, 1, 64))
        V.check("fewer than rows", Or(eq(r, 1, 64), S.icmp("slt", r, L, 64)))
        V.check("short inputs are not split", Or(eq(r, 1, 64), sge(L, const(V.B, "rayvc_thresh"))))
    return Inst(fn + ("(no pool)" if nul else ""), fn, setup, post, module="pool")
def executors(nul):
    def setup(B):
        ex = B.int("execs", 64, 1, NMAX); B.h = ex; return [B.null() if nul else pool_struct(B, ex)]
    return Inst("pool_get_executors_count" + ("(no pool)" if nul else ""), "pool_get_executors_count", setup, lambda V, r: V.check("count", eq(r, 1 if nul else V.B.h, 64)), module="pool")
def chunk_aligned(sz):
    def setup(B):
        L = B.int("L", 64, 0, LIM * 4); n = B.int("n", 64, -5 & M64, NMAX)
        if B.native and B.rng.random() < 0.7: L = B.rng.randint(0, 100000); B.log.append(("L", L))
        B.h = (L, n); return [L, n, sz]
    def post(V, r):
        L, n = V.B.h
        if V.native:
            n = S.sgn(n, 64)
            if n <= 1 or sz == 0: V.check("one worker takes everything", r == L); return
            V.check("chunks cover the input", r >= 0 and r < LIM * 8 and (r >= 1 or L == 0) and r * n >= L); return
        if sz == 0: V.check("one worker takes everything", eq(r, L, 64)); return
        V.check("one worker takes everything", Implies(sle(n, 1), eq(r, L, 64)))
        V.check("positive", And(sge(r, 0), Implies(sgt(L, 0), sge(r, 1)), S.icmp("slt", r, LIM * 8, 64)))
        V.check("chunks cover the input", Implies(sgt(n, 1), sge(mul(r, n, 64), L)))
    return Inst("pool_chunk_aligned(size %d)" % sz, "pool_chunk_aligned", setup, post, module="pool")
def call_task(k):
    """pool_call_task_fn hands every argument to the function in order"""
    def setup(B):
        vals = [B.int("a%d" % i, 64) for i in range(9)]; B.h = vals
        if B.native:
            import ctypes as C
            got = []; B.keep_cb = got
            P = C.CFUNCTYPE(C.c_uint64, *[C.c_uint64] * min(k, 8))
            cb = P(lambda *a: (got.append(a), 77)[1]); B.cbs.append(cb); f = C.cast(cb, C.c_void_p).value
        else: f = B.fn("rayvc_task")
        argv = B.struct("argv", 72, {8 * i: (8, v) for i, v in enumerate(vals)}, writable=False)
        return [f, k, argv]
    def post(V, r):
        vals = V.B.h
        if V.native:
            if k > 8: V.check("none", V.isnullobj(r)); return
            V.check("called once with the arguments in order", V.B.keep_cb == [tuple(v & M64 for v in vals[:k])] and r == 77); return
        calls = V.st.ghost.get("task", ())
        if k > 8: V.check("none", V.isnullobj(r) and not calls); return
        V.check("called once", len(calls) == 1 and len(calls[0]) == k)
        for i, a in enumerate(calls[0][:k]): V.check("argument %d" % i, eq(asint(a), vals[i], 64))
        V.check("returns its result", isinstance(r, Ptr) and r.r is V.st.ghost.get("taskres"))
    def c(e, st, a, ins):
        """the task's function"""
        st.ghost["task"] = st.ghost.get("task", ()) + (tuple(a),); r = Region("taskres", 16, Init({}), "obj"); st.ghost["taskres"] = r
        return [(st, Ptr(r, 0))]
    return Inst("pool_call_task_fn(%d arguments)" % k, "pool_call_task_fn", setup, post, module="pool", contracts={"rayvc_task": c})
# ------------------------------------------------------------------------------------------------ native helpers
def big(B, tp, n, vals=None):
    """native: a real vector of n elements, cached per type"""
    import ctypes as C
    key = "_big_%s" % tp; f = B.lib.vector; f.restype = C.c_void_p; f.argtypes = [C.c_int8, C.c_int64]
    c = B.lib.__dict__.setdefault("_rayvc_big", {})
    a = c.setdefault((tp, len([k for k in B.keep if getattr(k, "bigtp", None) == tp])), None)
    k = (tp, len([k for k in B.keep if getattr(k, "bigtp", None) == tp]))
    if not c[k]: c[k] = f(CODE[tp], 120000); C.memset(c[k] + 16, 0, 120000 * WIDTH[tp])
    h = Obj(); h.p = c[k]; h.size = 16; h.writable = True; h.bigtp = tp; h.name = "vec"; B.keep.append(h); h.n = n; h.tp = tp
    (C.c_int64).from_address(h.p + 8).value = n
    return h
def i64s(p, n):
    import ctypes as C
    return (C.c_int64 * n).from_address(p)
def instances(tier="quick"):
    out = [split_mem(False), split_mem(True), split_mem(False, True), split_mem(True, True), executors(False), executors(True)] + [chunk_aligned(z) for z in (0, 1, 2, 4, 8, 16)] + [call_task(k) for k in range(10)]
    hd = lambda B, n, tp, L, rc=7: B.atom(n, tp[1:]) if tp[0] == "-" else header(B, n, tp, L, rc)
    def one(tp, rc=7): return lambda B, L: ((lambda x: ({0: x}, [x]))(hd(B, "x", tp, L, rc)))
    def two(tx, ty, rx=7, ry=7): return lambda B, L: ((lambda x, y: ({0: x, 1: y}, [x, y]))(hd(B, "x", tx, L, rx), hd(B, "y", ty, L, ry)))
    for tp in ("U8", "I32", "F64"):
        out.append(driver("unop_fold(%s)" % tp, "unop_fold", "math", "rayvc_rec3", 3, 1, 2, one(tp), "fold"))
    for tp, rc in (("U8", 7), ("F64", 1), ("F64", 7)):
        out.append(driver("unop_map(%s,rc=%d)" % (tp, rc), "unop_map", "math", "rayvc_rec4", 4, 1, 2, one(tp, rc), "map", outtype=lambda h, tp=tp: CODE[tp]))
    # out is x or y (if nobody else holds it and its type fits) or a new vector
    for tx, ty, R, rx, ry in (("I64", "I64", "I64", 7, 7), ("I64", "I64", "I64", 1, 1), ("I64", "I64", "I64", 7, 1), ("I32", "F64", "F64", 1, 1), ("F64", "I16", "F64", 7, 1), ("I64", "-F64", "F64", 1, 7), ("-I32", "I32", "I32", 7, 1), ("DATE", "DATE", "I32", 1, 1),
                              ("-TIME", "DATE", "TIMESTAMP", 7, 7)):
        out.append(driver("binop_map(%s,%s,rc=%d,%d)" % (tx, ty, rx, ry), "binop_map", "math", "rayvc_rec5", 5, 2, 3, two(tx, ty, rx, ry), "map", outtype=lambda h, R=R: CODE[R]))
    for op, tx, ty, R in (("fdiv", "I64", "I64", "F64"), ("div", "I32", "I64", "I32"), ("div", "F64", "-I64", "F64"), ("mod", "I32", "I64", "I64"), ("mod", "-I64", "I32", "I32"), ("xbar", "DATE", "-I64", "DATE"), ("xbar", "I32", "I64", "I64"), ("sub", "TIMESTAMP", "TIMESTAMP", "I64")):
        for r in (7, 1):
            out.append(driver("binop_map[%s](%s,%s,rc=%d)" % (op, tx, ty, r), "binop_map", "math", "ray_%s_partial" % op, 5, 2, 3, two(tx, ty, r, r), "map", outtype=lambda h, R=R: CODE[R], native=False))
    out.append(driver("binop_fold(F64)", "binop_fold", "math", "rayvc_rec3f", 4, 2, 3, two("F64", "-F64"), "fold", fold_fn="ray_sum_partial"))
    out.append(driver("binop_fold(I32)", "binop_fold", "math", "rayvc_rec3f", 4, 2, 3, two("I32", "-F64"), "fold", fold_fn="ray_sum_partial"))
    # count: kernel fixed, results added up
    def c_raysum(sp):
        def c(e, st, a, ins):
            """ray_sum(v): the sum of v (verified as unop_fold with C03's kernel)"""
            r = st.ghost.get("results2"); e.check(st, r is not None and isinstance(a[0], Ptr) and a[0].r is r, "ray_sum:sums the partial counts"); return sp.kres(e, st)
        return {"ray_sum": c}
    def cnt(tp):
        def build(B, L):
            x = big(B, tp, L) if B.native else header(B, "x", tp, L)
            return {0: x}, [x]
        return driver("ray_cnt(%s)" % tp, "ray_cnt", "math", "ray_cnt_partial", 3, 1, 2, build, "fold", opidx=None, extra_contracts=c_raysum, natpost=lambda V, r, h: V.check("count", V.iserr(r) or V.av(r, 8) == h["L"]))
    out += [cnt("I64"), cnt("U8")]
    for tx, ty in (("I64", "I64"), ("F64", "-F64"), ("-I32", "I32"), ("SYMBOL", "-SYMBOL")):
        out.append(driver("cmp_map(%s,%s)" % (tx, ty), "cmp_map", "cmp", "rayvc_rec5", 5, 2, 3, two(tx, ty), "map", outtype=lambda h: CODE["B8"]))
    out.append(driver("bin_map(I64)", "bin_map", "items", "rayvc_rec5", 5, 2, 3, two("I64", "I64"), "map", outtype=lambda h: CODE["I64"]))
    # pool_map
    out.append(driver("pool_map", "pool_map", "pool", "rayvc_recm", 3, 0, 1, lambda B, L: ((lambda c: ({2: c}, [L, c]))(B.struct("ctx", 16, {}))), "void", opidx=1))
    return out
