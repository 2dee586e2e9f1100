"""Contracts: one Inst = one function under one precondition; the same specification text is used symbolically (deductive check) and
concretely (native replay of a failed obligation against the compiled code)."""
import z3, time, random, traceback
import sym as S
from sym import And, Or, Not, If, Implies, isc, norm, mask, sgn, conc
from engine import *
import engine as E

CODE = dict(LIST=0, B8=1, U8=2, I16=3, I32=4, I64=5, SYMBOL=6, DATE=7, TIME=8, TIMESTAMP=9, F64=10, GUID=11, C8=12, ENUM=20, TABLE=98,
            DICT=99, LAMBDA=100, UNARY=101, BINARY=102, VARY=103, TOKEN=125, NULL=126, ERR=127)
WIDTH = dict(LIST=8, B8=1, U8=1, C8=1, I16=2, I32=4, DATE=4, TIME=4, I64=8, SYMBOL=8, TIMESTAMP=8, F64=8, GUID=16, ENUM=8)
NAME = {v: k for k, v in CODE.items()}
NUL = {2: 0x8000, 4: 0x80000000, 8: 1 << 63}
NANF = 0x7FF8000000000000
LIM = 1 << 36      # vectors are shorter than 2^36 elements (memory limit)

class Reject(Exception): pass

# -------------------------------------------------------------------------------------------------- symbolic side
class SymB:
    """builds the symbolic pre-state"""
    native = False
    def __init__(s, eng): s.e = eng; s.st = State(); s.inputs = {}
    def int(s, name, w=64, lo=None, hi=None, signed=True):
        v = z3.BitVec(name, w); s.inputs[name] = v
        if lo is not None: s.st.assume(S.icmp("sge" if signed else "uge", v, lo & mask(w) if isc(lo) else lo, w))
        if hi is not None: s.st.assume(S.icmp("sle" if signed else "ule", v, hi & mask(w) if isc(hi) else hi, w))
        return v
    def bool(s, name):
        v = z3.Bool(name); s.inputs[name] = v; return v
    def choice(s, name, vals): raise NotImplementedError
    def assume(s, c): s.st.assume(c)
    def header(s, tp, rc=None, attrs=None, mmod=0xff, order=0, name="o"):
        c = {0: (1, mmod), 1: (1, z3.BitVec(name + ".order", 8)), 2: (1, tp & 0xff),
             3: (1, attrs if attrs is not None else 0)}
        if rc is None:
            rc = z3.BitVec(name + ".rc", 32); s.st.assume(S.icmp("uge", rc, 1, 32)); s.st.assume(S.icmp("ult", rc, 1 << 30, 32))
        c[4] = (4, rc)
        return c
    def vec(s, name, tp, n, writable=False, rc=None, attrs=None, w=None, cap=None, at=None, code=None, mmod=0xff):
        w = w or WIDTH[tp]; code = CODE[tp] if code is None else code & 0xff
        cells = s.header(code, rc, attrs, mmod=mmod, name=name); cells[8] = (8, n)
        arr = at or word_array(name, w)
        sz = norm(S.binop("add", 16, S.binop("mul", cap if cap is not None else n, w, 64), 64))
        r = Region(name, sz, Init(cells, [(16, w, arr, None)]), "obj", writable=writable)
        h = Obj(); h.p = Ptr(r, 0); h.tp, h.n, h.w, h.name = tp, n, w, name; h.arr = arr
        if tp == "B8":
            # invariant of boolean vectors: every element is 0 or 1
            u = z3.BitVec("u_" + name, 64)
            s.st.facts.append(Fact(u, 0, n, S.icmp("ule", arr(u), 1, 8)))
        return h
    def atom(s, name, tp, rc=None, val=None):
        w = WIDTH[tp] if tp != "GUID" else 8
        v = val if val is not None else z3.BitVec(name, 8 * w)
        if val is None: s.inputs[name] = v
        cells = s.header((-CODE[tp]) & 0xff, rc, name=name); cells[8] = (w, v)
        if w < 8:
            g = 8 - w; o = 8 + w      # upper bytes of the union: arbitrary
            cells[o] = (g, z3.BitVec(name + ".pad", 8 * g))
        if tp == "B8": s.st.assume(S.icmp("ule", v, 1, 8))
        r = Region(name, 16, Init(cells), "obj", writable=False)
        h = Obj(); h.p = Ptr(r, 0); h.tp, h.w, h.v, h.name, h.n = tp, w, v, name, None
        return h
    def buf(s, name, n, w=1, writable=False, at=None, slack=0):
        """raw array of n elements of width w"""
        arr = at or word_array(name, w)
        r = Region(name, norm(S.binop("add", S.binop("mul", n, w, 64), slack, 64)), Init({}, [(0, w, arr, None)]), "buf", align=w, writable=writable)
        h = Obj(); h.p = Ptr(r, 0); h.n, h.w, h.name, h.arr, h.tp = n, w, name, arr, None
        return h
    def struct(s, name, size, cells, writable=True):
        """cells: {off: (n, value)}; unspecified cells are arbitrary"""
        def lazy(eng, st, off, n): return z3.BitVec("%s.c%s_%d" % (name, off, n), 8 * n) if isc(off) else None
        r = Region(name, size, Init(cells, lazy=lazy), "struct", writable=writable)
        h = Obj(); h.p = Ptr(r, 0); h.name = name; h.tp = None; h.n = None
        return h
    def null(s): return NULL
    def nullobj(s): return s.e.glob(s.e.w.mod("rayforce"), "__NULL_OBJ")
    def fn(s, name): return Ptr(FnPtr(name), 0)

class Obj:
    """handle of a declared object: .p pointer, .at(i) initial element, .v initial atom value"""
    def at(s, i): return s.arr(i)

class SymV:
    """symbolic post-state view"""
    native = False
    def __init__(s, eng, st, inst): s.e, s.st, s.inst = eng, st, inst; s.nq = 0
    def rd(s, p, off, n):
        q = p.add(off)
        return s.e.read(s.st, q.r, q.o, n)
    def typ(s, p): return s.rd(p, 2, 1)
    def len(s, p): return s.rd(p, 8, 8)
    def rc(s, p): return s.rd(p, 4, 4)
    def el(s, p, i, w): return s.rd(p, norm(S.binop("add", 16, S.binop("mul", i, w, 64), 64)), w)
    def bel(s, p, i, w): return s.rd(p, norm(S.binop("mul", i, w, 64)), w)
    def av(s, p, w): return s.rd(p, 8, w)
    def check(s, name, c): s.e.check(s.st, c, s.inst.name + "/" + name)
    def forall(s, name, lo, hi, f):
        """for all lo<=k<hi: f(k) -- proved for an arbitrary k"""
        k = z3.BitVec("k_%s" % name, 64)
        st0 = s.st; s.st = st0.copy(); s.st.inst.append(k)
        s.st.assume(S.icmp("sge", k, lo, 64)); s.st.assume(S.icmp("slt", k, hi, 64))
        try:
            if not s.e.feasible(s.st): return
            for sub in s.e.forked(s.st, lambda: f(k), s): pass
        finally: s.st = st0
    def case(s, cond, f):
        """under the additional hypothesis cond (skipped when it cannot hold): f()"""
        st0 = s.st; s.st = st0.copy(); s.st.assume(cond)
        try:
            if s.e.feasible(s.st): f()
        finally: s.st = st0
    lexw = 64
    def use(s, k): s.st.inst.append(k)
    def lexcmp(s, objs, offs, lens):
        """result of the str_cmp call on exactly these two byte ranges"""
        for a, r in s.st.ghost.get("strcmp", ()):
            if all(isinstance(a[2 * i], Ptr) and a[2 * i].r is objs[i].p.r and s.e.implied(s.st, And(S.icmp("eq", a[2 * i].o, offs[i], 64), S.icmp("eq", a[2 * i + 1], lens[i], 64))) for i in (0, 1)): return r
        return None
    def feq(s, a, b): return S.icmp("eq", a, b, 64)
    def is_ptr(s, p, h): return isinstance(p, Ptr) and p.r is h.p.r and S.icmp("eq", p.o, 0, 64)
    def isnullobj(s, p): return isinstance(p, Ptr) and p.r is not None and p.r.name == "@__NULL_OBJ"
    def iserr(s, p): return isinstance(p, Ptr) and p.r is not None and p.r.name == "@__ERR_OBJ"
    def recur(s, name, w, init, step, n):
        r = prove_recur(s.e, s, name, w, init, step, n)
        if not r: raise Unsupported("recurrence %s not found" % name)
        for f in r: s.st.assume(S.icmp("eq", f(n), r[-1](n), w))      # all of them equal g
        s.alt = r
        return r[-1]
    def fold(s, name, v, w, init, step, n, comm=None, fl=False):
        """v == step(...step(step(init,0),1)...,n-1)"""
        s.e.prove_fold(s, s.inst.name + "/" + name, v, w, init, step, n)

def forked(eng, st, f, V):
    """evaluate f under V.st, splitting on undecided reads"""
    work = [st]; n = 0
    while work:
        cur = work.pop(); V.st = cur
        mark = len(eng.obls)
        try: f()
        except Fork as fk:
            del eng.obls[mark:]
            a = cur.copy(); a.assume(fk.cond); b = cur.copy(); b.assume(Not(fk.cond)); n += 1
            if n > 200: raise Unsupported("too many splits in the postcondition")
            if eng.feasible(a): work.append(a)
            if eng.feasible(b): work.append(b)
            continue
        yield cur
Engine.forked = lambda s, st, f, V: forked(s, st, f, V)

def prove_fold(eng, V, name, v, w, init, step, n):
    """v = acc(T) for a loop-carried variable acc of some summarised loop with recurrence acc(u+1)=next(u): induction against the
    specification fold g(0)=init, g(u+1)=step(g(u),u): show acc(0)=init, next(u)=step(acc(u),u), T=n."""
    st = V.st; t0 = time.time()
    veq = (lambda a, b: Not(S.binop("xor", a, b, 1))) if w == 1 else (lambda a, b: S.icmp("eq", a, b, w))
    best = None
    # n == 0
    cands = []
    for rec in st.loops:
        for va in rec.vars:
            if va.kind in ("general",) and not va.isptr and va.w == w:
                cands.append((rec, va))
    # candidate must literally be the result
    why = "no loop accumulates the result"
    eng.quiet += 1
    ok = False
    try:
        # loop skipped altogether
        if eng.implied(st, And(S.icmp("eq", n, 0, 64), veq(v, init))): ok = True
        for rec, va in (cands if not ok else []):
            fin = rec.sm.cur(va, rec.T)
            if not (same(fin, v) or eng.implied(st, veq(fin, v), 3000)): why = "result is not the accumulator" if why is None else why; continue
            if not eng.implied(st, S.icmp("eq", rec.T, n, 64), 5000): why = "loop does not run exactly n iterations"; continue
            if not eng.implied(st, veq(va.init, init)): why = "accumulator starts with %s" % va.init; continue
            u = z3.BitVec("uf_%s" % name, 64)
            s2 = st.copy(); s2.inst = s2.inst + [u, norm(S.binop("add", u, 1, 64))]
            s2.assume(S.icmp("sge", u, 0, 64)); s2.assume(S.icmp("slt", u, rec.T, 64))
            a = rec.sm.cur(va, u); nx = subst(va.step, [(rec.sm.t, u)])
            r, m = eng.prove(s2, veq(nx, step(a, u)))
            if r == "proved": ok = True; break
            # commutative reordering: the loop may run backwards
            a_r = step(a, norm(S.binop("sub", S.binop("sub", n, 1, 64), u, 64)))
            if getattr(V.inst, "commutative", False) and eng.prove(s2, veq(nx, a_r))[0] == "proved": ok = True; break
            why = "step differs from the specification fold: %s" % str(nx)[:300]
    finally: eng.quiet -= 1
    if not eng.quiet:
        eng.obls.append(Obl(name, "proved" if ok else "failed", time.time() - t0, "" if ok else why))
Engine.prove_fold = prove_fold
def prove_recur(eng, V, name, w, init, step, n):
    """the loop-carried variables that follow the recurrence g(0)=init, g(u+1)=step(g(u),u), 0<=u<n (by induction they equal g) -> [k -> g(k)]"""
    st = V.st; t0 = time.time(); out = []
    eng.quiet += 1
    try:
        for rec in st.loops:
            for va in rec.vars:
                if va.kind != "general" or va.isptr or va.w != w: continue
                if not eng.implied(st, S.icmp("eq", rec.T, n, 64)) or not eng.implied(st, S.icmp("eq", va.init, init, w)): continue
                u = z3.BitVec("ur_%s" % name, 64); s2 = st.copy(); s2.inst = s2.inst + [u, norm(S.binop("add", u, 1, 64))]
                s2.assume(S.icmp("sge", u, 0, 64)); s2.assume(S.icmp("slt", u, rec.T, 64))
                nx = subst(va.step, [(rec.sm.t, u)])
                if eng.implied(s2, S.icmp("eq", nx, step(rec.sm.cur(va, u), u), w)): out.append(lambda k, rec=rec, va=va: rec.sm.cur(va, S.bv(k, 64) if isc(k) else k))
    finally: eng.quiet -= 1
    if not eng.quiet: eng.obls.append(Obl(V.inst.name + "/" + name, "proved" if out else "failed", time.time() - t0, "" if out else "no loop computes the recurrence " + name))
    return out

class Inst:
    """one contract instance"""
    commutative = False
    def __init__(s, name, fn, setup, post, module=None, contracts=None, opts=None, native=None, nat=None):
        s.name, s.fn, s.setup, s.post, s.module = name, fn, setup, post, module
        s.contracts = contracts or {}; s.opts = opts or {}
        s.native_ok = native if native is not None else True
        s.nat = nat
class Result: pass

def verify(world, inst, base_contracts, timeout_ms=20000, budget=120, scale=1):
    """-> Result with obligations"""
    r = Result(); r.name = inst.name; r.fn = inst.fn; r.error = None; t0 = time.time()
    S.STATS.__init__()
    eng = Engine(world, timeout_ms); eng.scale = scale * inst.opts.get("scale", 1); eng.contracts = dict(base_contracts); eng.contracts.update(inst.contracts)
    eng.contracts.pop(inst.fn, None)
    eng.deadline = t0 + inst.opts.get("budget", budget)
    eng.unroll = dict(inst.opts.get("unroll", {})); eng.invs = list(inst.opts.get("invs", [])); eng.mergeback = inst.opts.get("merge", False); eng.quickfeas = inst.opts.get("quickfeas", False); eng.nogen = inst.opts.get("nogen", False); eng.selfork = inst.opts.get("selfork", False); eng.ends = list(inst.opts.get("ends", [])); eng.opaque = inst.opts.get("opaque", False); eng.lean = inst.opts.get("lean", False); eng.guess = inst.opts.get("guess", False); eng.joinret = inst.opts.get("joinret", False); eng.arrays = list(inst.opts.get("arrays", [])); eng.keep = dict(inst.opts.get("keep", {}))
    eng.noinline = set(inst.opts.get("noinline", []))
    for k, v in inst.opts.get("globals", {}).items(): eng.global_init[k] = v
    for k, v in DEFAULT_GLOBALS.items(): eng.global_init.setdefault(k, v)
    r.eng = eng; r.paths = 0; r.covered = 0
    try:
        f = world.func(inst.fn, inst.module)
        if f is None: raise Unsupported("function %s not found in the current source" % inst.fn)
        B = SymB(eng); args = inst.setup(B)
        H = args[1] if isinstance(args, tuple) else None
        argv = args[0] if isinstance(args, tuple) else args
        argv = [a.p if isinstance(a, Obj) else a for a in argv]
        if not eng.feasible(B.st): raise Unsupported("vacuous precondition")
        eng.addr_regions = True
        outs = eng.exec_func(f, argv, B.st)
        r.paths = len(outs)
        live = 0
        for st, ret in outs:
            if not eng.feasible(st): continue
            live += 1
            V = SymV(eng, st, inst); V.B = B
            for _ in forked(eng, st, lambda: inst.post(V, ret), V): pass
        r.covered = live
        if live == 0 and not inst.opts.get("noreturn"): raise Unsupported("no path of %s returns (vacuous)" % inst.fn)
    except (Unsupported, Fork, PathEnd) as ex:
        r.error = "%s: %s" % (type(ex).__name__, ex)
    except (RecursionError, z3.Z3Exception, KeyError, AttributeError, TypeError, AssertionError, IndexError, ValueError, NotImplementedError, SyntaxError) as ex:
        r.error = "engine: %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    r.obls = eng.obls; r.t = time.time() - t0; r.solver = S.STATS.t + S.STATS.tfeas; r.queries = S.STATS.queries + S.STATS.feas
    r.by = dict(S.STATS.by); r.timeouts = eng.timeouts
    r.bad = [o for o in eng.obls if o.status != "proved"]
    r.used = set(eng.used_contracts); r.inl = set(eng.inlined); r.bi = set(eng.builtins_used); r.bounded = set(eng.bounded_used)
    r.ok = r.error is None and not r.bad and bool(eng.obls)
    if r.error is None and not eng.obls: r.error = "no obligations generated"; r.ok = False
    return r

# -------------------------------------------------------------------------------------------------- standard globals and contracts
def sentinel(tp):
    def f(eng, name):
        r = Region("@" + name, 16, Init({0: (1, 0xff), 1: (1, 0), 2: (1, tp), 3: (1, 0), 4: (4, 1), 8: (8, 0)}), "obj", writable=True)
        return Ptr(r, 0)
    return f
def vm_global(eng, name):
    vm = Region("VM", None, Init(lazy=lambda e, st, off, n: z3.BitVec("vm_%s" % off, 8 * n) if isc(off) else None), "struct")
    rt = Region("@__VM", 8, Init({0: (8, Ptr(vm, 0))}), "global", writable=False)
    eng.vm = vm
    return Ptr(rt, 0)
DEFAULT_GLOBALS = {"__NULL_OBJ": sentinel(CODE["NULL"]), "__ERR_OBJ": sentinel(CODE["ERR"]), "__VM": vm_global}
DEFAULT_GLOBALS["__NULL_OBJ"] = sentinel(CODE["NULL"])

def c_heap_alloc(e, st, a, ins):
    """heap_alloc(n): requires 0 <= n < 2^40; ensures a fresh block of at least n bytes, disjoint from all live ones, contents arbitrary"""
    n = a[0]
    e.check(st, And(S.icmp("sge", n, 0, 64), S.icmp("slt", n, 1 << 40, 64)), "heap_alloc:size", "size %s" % str(n)[:100])
    e.nfresh += 1; tag = "h%d" % e.nfresh
    def lazy(eng, s2, off, k):
        # uninitialised heap memory: arbitrary but fixed contents
        f = z3.Function("heap_%s_%d" % (tag, k), z3.BitVecSort(64), z3.BitVecSort(8 * k)); return f(S.bv(off, 64))
    r = Region("heap." + tag, n, Init(lazy=lazy), "heap")
    return [(st, Ptr(r, 0))]
def c_err(name):
    def f(e, st, a, ins): return [(st, e.glob(e.w.mod("rayforce"), "__ERR_OBJ"))]
    return f
def c_drop(e, st, a, ins):
    """drop_obj(x): releases one reference; frees x and what it owns when it was the last"""
    st.ghost["dropped"] = st.ghost.get("dropped", ()) + (a[0],)
    return [(st, None)]
def c_free(e, st, a, ins):
    st.ghost["freed"] = st.ghost.get("freed", ()) + (a[0],)
    return [(st, None)]
def c_clone(e, st, a, ins):
    """clone_obj(x): one more reference to x; returns x"""
    st.ghost["cloned"] = st.ghost.get("cloned", ()) + (a[0],)
    return [(st, a[0])]
BASE = {"clone_obj": c_clone, "heap_alloc": c_heap_alloc, "drop_obj": c_drop, "heap_free": c_free}
for n in ("err_raw", "err_type", "err_arity", "err_length", "err_index", "err_domain", "err_value", "err_limit", "err_os", "err_user", "err_nyi",
          "err_parse", "ray_err"): BASE[n] = c_err(n)
