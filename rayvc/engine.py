"""Verification-condition generator: symbolic execution of LLVM IR with automatically summarised loops.

A function is run on the symbolic pre-state a contract declares.  Branches fork (infeasible sides are pruned), calls are replaced by
the callee's contract (or its body is inlined), and every loop is replaced by an inductive summary: a hidden iteration counter t,
affine variables as closed forms, other variables as uninterpreted functions of t with their recurrence, memory written by the loop as
quantified write entries, and the conditions of all earlier iterations.  Nothing is bounded: t ranges over all iterations.
The summary is re-derived under itself until it reproduces itself exactly, which is the induction step.
"""
import z3, time, itertools
import sym as S
from sym import And, Or, Not, If, Implies, conc, isc, lin, ldiff, ldiv, unlin, norm, mask, sgn

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(s, cond): s.cond = cond

TMAX = 1 << 40          # iteration counters and sizes are assumed below 2^40 (address space / memory limit)

class Region:
    _n = itertools.count(1)
    def __init__(s, name, size=None, init=None, kind="mem", align=32, writable=True):
        s.id = next(Region._n); s.name, s.size, s.init, s.kind, s.align, s.writable = name, size, init, kind, align, writable
        s._addr = None
    @property
    def addr(s):
        if s._addr is None: s._addr = z3.BitVec("addr_%s_%d" % (s.name, s.id), 64)
        return s._addr
    def __repr__(s): return "<%s#%d>" % (s.name, s.id)

class Ptr:
    __slots__ = ("r", "o")
    def __init__(s, r, o=0): s.r, s.o = r, o
    def __repr__(s): return "Ptr(%r,%s)" % (s.r, s.o)
    def add(s, d):
        return Ptr(s.r, norm(S.binop("add", s.o, d, 64)))
    def same(s, q): return isinstance(q, Ptr) and s.r is q.r and same(s.o, q.o)
NULL = Ptr(None, 0)

class FnPtr:
    """region-like target of a function pointer"""
    def __init__(s, name): s.name = name; s.kind = "fn"; s.size = 0; s.id = -1; s.align = 16
    def __repr__(s): return "&" + s.name

def same(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr): return isinstance(a, Ptr) and a.same(b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isc(a) and isc(b): return a == b and isinstance(a, bool) == isinstance(b, bool)
    if isc(a) or isc(b): return False
    return a.eq(b)

# ---------------------------------------------------------------- region initial contents
class Init:
    """cells: {off: (n, value)}; arrays: list of (base, ew, fn(idx)->value, count or None); lazy: unknown cells become symbols"""
    def __init__(s, cells=None, arrays=None, lazy=None, total=None):
        s.cells = dict(cells or {}); s.arrays = list(arrays or []); s.lazy = lazy; s.total = total
    def read(s, eng, st, off, n):
        if isc(off):
            c = s.cells.get(off)
            if c and c[0] == n: return c[1]
            for o, (w, v) in s.cells.items():
                if o <= off and off + n <= o + w:
                    if isinstance(v, Ptr): raise Unsupported("part of pointer cell")
                    return S.extract_bytes(v, w, off - o, n)
            # spanning several cells
            parts, p = [], off
            while p < off + n:
                for o, (w, v) in s.cells.items():
                    if o == p and o + w <= off + n and not isinstance(v, Ptr): parts.append((v, w)); p += w; break
                    if o <= p < o + w and not isinstance(v, Ptr):
                        k = min(o + w, off + n) - p; parts.append((S.extract_bytes(v, w, p - o, k), k)); p += k; break
                else: break
            if p == off + n and parts: return S.concat_bytes(parts)
        for base, ew, fn, cnt in s.arrays:
            if isc(off) and off < base: continue
            l = ldiff(off, base)
            d, c = l
            r = c % ew if all(sgn(f, 64) % ew == 0 for _, f in d.values()) else None
            if r is None: continue
            idx = ldiv((d, (c - r) & mask(64)), ew)
            if idx is None: continue
            i = unlin(idx)
            if r + n <= ew:
                v = fn(i)
                if r == 0 and n == ew: return v
                if isinstance(v, Ptr): raise Unsupported("part of pointer element")
                return S.extract_bytes(v, ew, r, n)
            if r == 0 and n % ew == 0:
                return S.concat_bytes([(fn(S.binop("add", i, k, 64)), ew) for k in range(n // ew)])
        if s.lazy is not None:
            v = s.lazy(eng, st, off, n)
            if v is not None:
                if isc(off): s.cells[off] = (n, v)
                return v
        raise Unsupported("read of unspecified cell off=%s n=%d" % (off, n))

def bytes_array(name):
    f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8))
    return lambda i: f(S.bv(i, 64))
def word_array(name, ew):
    f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8 * ew))
    return lambda i: f(S.bv(i, 64))

# ---------------------------------------------------------------- memory entries
class W:
    __slots__ = ("off", "n", "val")
    def __init__(s, off, n, val): s.off, s.n, s.val = off, n, val
class L:
    """for all 0<=u<T with guard(u): [off(u), off(u)+n) := val(u); off(u) = a + stride*u"""
    __slots__ = ("u", "T", "a", "stride", "n", "val", "guard")
    def __init__(s, u, T, a, stride, n, val, guard): s.u, s.T, s.a, s.stride, s.n, s.val, s.guard = u, T, a, stride, n, val, guard
class A:
    """the contract's invariant for an array the loop writes: element j holds val(j, T) where guard(j, T), what it held before elsewhere"""
    def __init__(s, tm, u, val, guard): s.tm, s.u, s.val, s.guard = tm, u, val, guard
class Template:
    """name, byte offset of element 0, number of elements, their width, val(j, t), guard(j, t), hint(t): lemma instances for iteration t"""
    def __init__(s, name, lo, count, w, val, guard=None, hint=None, prio=0): s.prio = prio; s.name, s.lo, s.count, s.w, s.val, s.guard, s.hint = name, lo, count, w, val, guard or (lambda j, t: True), hint
class G:
    """scatter: for all 0<=u<T with guard(u), in order: [off(u), +n) := val(u); off arbitrary expression of u"""
    __slots__ = ("u", "T", "off", "n", "val", "guard", "loop")
    def __init__(s, u, T, off, n, val, guard, loop): s.u, s.T, s.off, s.n, s.val, s.guard, s.loop = u, T, off, n, val, guard, loop
class C:
    __slots__ = ("dst", "len", "r", "node", "src")
    def __init__(s, dst, ln, r, node, src): s.dst, s.len, s.r, s.node, s.src = dst, ln, r, node, src
class F:
    __slots__ = ("dst", "len", "byte")
    def __init__(s, dst, ln, byte): s.dst, s.len, s.byte = dst, ln, byte
class H:
    """havoc of [lo, lo+len) (len None: whole region): contents fn(off,n) unknown"""
    __slots__ = ("lo", "len", "tag", "arr")
    def __init__(s, lo, ln, tag, arr=None): s.lo, s.len, s.tag, s.arr = lo, ln, tag, arr

def subst(e, m):
    """m: list of (const, expr)"""
    if isinstance(e, Ptr): return Ptr(e.r, norm(subst(e.o, m)))
    if isinstance(e, tuple): return tuple(subst(x, m) for x in e)
    if isinstance(e, (Region, str)): return e
    if isc(e) or e is None: return e
    return conc(S.canon(z3.substitute(e, [(a, S.bv(b, a.size())) for a, b in m])))

_MENT = {}
def mentions(e, ids):
    """does the term mention any constant whose id is in ids"""
    if isinstance(e, Ptr): return mentions(e.o, ids)
    if isinstance(e, tuple): return any(mentions(x, ids) for x in e)
    if isc(e) or e is None: return False
    return bool(consts(e) & ids)
def consts(e):
    k = e.get_id(); c = _MENT.get(k)
    if c is not None and c[0].eq(e): return c[1]
    seen, out, st = set(), set(), [e]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        c = _MENT.get(i)
        if c is not None and c[0].eq(x): out |= c[1]; continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(i)
        else: st.extend(x.children())
    out = frozenset(out)
    if len(_MENT) > 300000: _MENT.clear()
    _MENT[k] = (e, out)
    return out

class Fact:
    """for all lo<=u<hi: body(u)"""
    __slots__ = ("u", "lo", "hi", "body", "trig")
    def __init__(s, u, lo, hi, body): s.u, s.lo, s.hi, s.body, s.trig = u, lo, hi, body, None
    def at(s, e):
        m = [(s.u, e)]
        return Implies(And(S.icmp("sle", s.lo, e, 64), S.icmp("slt", e, s.hi, 64)), subst(s.body, m))
    def key(s): return (s.u.get_id(), None if isc(s.body) else s.body.get_id())
    def triggers(s):
        """[(decl, argindex, coefficient-free offset)] : UF applications f(.., u+c, ..) in the body"""
        if s.trig is not None: return s.trig
        out = {}; seen = set(); st = [s.body] if not isc(s.body) else []
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                    for j, a in enumerate(x.children()):
                        if z3.is_bv(a) and a.size() == 64:
                            d, c = lin(a); f = d.get(s.u.get_id())
                            if f and f[1] == 1:
                                rest = norm(S.binop("sub", a, s.u, 64))
                                out[(x.decl().get_id(), j, rest if isc(rest) else rest.get_id())] = (x.decl(), j, rest)
                st.extend(x.children())
        s.trig = list(out.values())
        return s.trig

class LoopRec:
    """what is known about one summarised loop"""
    def __init__(s): s.u = None; s.T = None; s.vars = {}; s.B = None; s.fn = None; s.header = None

class State:
    __slots__ = ("pc", "mem", "facts", "ghost", "loops", "inst")
    def __init__(s): s.pc = []; s.mem = {}; s.facts = []; s.ghost = {}; s.loops = []; s.inst = []
    def copy(s):
        n = State(); n.pc = list(s.pc); n.mem = dict(s.mem); n.facts = list(s.facts); n.ghost = dict(s.ghost); n.loops = list(s.loops)
        n.inst = list(s.inst)
        return n
    def assume(s, c):
        c = conc(c) if not isc(c) else c
        if not (isc(c) and c): s.pc.append(c)

class Obl:
    __slots__ = ("name", "status", "t", "detail", "model")
    def __init__(s, name, status, t, detail="", model=None): s.name, s.status, s.t, s.detail, s.model = name, status, t, detail, model

RETW = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "double": 64}
class Engine:
    def __init__(s, world, timeout_ms=20000):
        s.w = world; s.timeout = timeout_ms; s.scale = 1; s.timeouts = 0
        s.obls = []; s.quiet = 0; s.ctr = []; s.nfresh = 0
        s.contracts = {}     # callee name -> fn(eng, st, args, ins) -> [(st, ret)]
        s.noinline = set()
        s.unroll = {}        # function -> bound (bounded stand-in, labelled)
        s.depth = 0; s.maxdepth = 24
        s.globals = {}; s.global_init = {}
        s.used_contracts = set(); s.inlined = set(); s.builtins_used = set()
        s.bounds = True
        s.deadline = None
        s.paths = 0
        s.fresh_regions = []
        s.mergeback = False  # contract: join the paths of each unrolled iteration
        s.quickfeas = False  # contract: path pruning by linear arithmetic only
        s.nogen = False      # contract: only its own invariants are tried
        s.selfork = False    # contract: split the paths of conditional values
        s.ends = []          # contract: candidate iteration counts of loops
        s.opaque = False     # contract: objects behind pointers without a region are readable
        s.tracehou = None; s.lean = False; s.guess = False
        s.sums = []          # loops being summarised
        s.defs = {}          # specification functions: id of the declaration -> axiom about one application
        s.keep = {}          # contract: region name -> offset below which loops do not write it (proved)
        s.argeq = {}
        s.joinret = False    # contract: the paths of a called function are joined when it returns
        s.arrays = []        # contract: candidate array invariants, fn(eng, loop, region) -> [Template]
        s.invs = []          # user invariant templates: fn(eng, loop, vals(name->value), t) -> [cond]
        s._rel = {}
        s.bounded_used = set()

    # ------------------------------------------------------------ symbols
    def fresh(s, name, w):
        s.nfresh += 1
        nm = "%s!%d" % (name, s.nfresh)
        srt = z3.BoolSort() if w == 1 else z3.BitVecSort(w)
        if not s.ctr: return z3.Const(nm, srt)
        f = z3.Function(nm, *([z3.BitVecSort(64)] * len(s.ctr) + [srt]))
        return f(*s.ctr)
    def fresh_const(s, name, w=64):
        s.nfresh += 1
        return z3.BitVec("%s!%d" % (name, s.nfresh), w)
    def fresh_ty(s, name, ty, mod):
        ty = mod.resolve(ty)
        if ty.k == "int": return s.fresh(name, ty.n)
        if ty.k == "double": return s.fresh(name, 64)
        if ty.k == "ptr": return NULL
        if ty.k == "float": return s.fresh(name, 32)
        if ty.k == "struct": return tuple(s.fresh_ty(name, f, mod) for f in ty.fields)
        raise Unsupported("fresh of %r" % ty)

    # ------------------------------------------------------------ solving
    def insts(s, st, goals, rounds=2):
        """instantiate the quantified facts of the state at the terms that occur"""
        out = []; done = set()
        base = [g for g in goals if not isc(g)]
        pool = list(base) + [p for p in st.pc if not isc(p)]
        cur = pool; work = 0
        for rnd in range(rounds):
            apps = {}
            seen = set(); stk = list(cur)
            while stk:
                x = stk.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): apps.setdefault(x.decl().get_id(), []).append(x)
                    stk.extend(x.children())
            new = []
            for f in st.facts:
                terms = {}
                if rnd == 0:
                    for e in [f.lo, norm(S.binop("sub", f.hi, 1, 64))] + st.inst: terms[e if isc(e) else ("z", e.get_id())] = e
                for d, j, rest in f.triggers():
                    for x in apps.get(d.get_id(), ()):
                        e = norm(S.binop("sub", x.arg(j), rest, 64)); terms[e if isc(e) else ("z", e.get_id())] = e
                for k, e in terms.items():
                    kk = (id(f), k)
                    if kk in done: continue
                    done.add(kk); work += 1
                    if work > 400: break
                    c = f.at(e)
                    if not isc(c): new.append(c)
            for d, f in s.defs.items():
                for x in apps.get(d, ()):
                    if ("def", x.get_id()) in done or work > 400: continue
                    done.add(("def", x.get_id())); work += 1; c = f(*[conc(x.arg(i)) for i in range(x.num_args())])
                    if not isc(c): new.append(c)
            if not new: break
            out += new; cur = new
        return out
    def prove(s, st, goal, timeout=None, extra=()):
        goal = conc(goal)
        if goal is True: return "proved", None
        a = list(st.pc) + list(extra)
        if st.facts or s.defs: a += s.insts(st, [goal])
        if s.arrays and not isc(goal):
            m, rng = s.digit_names(a + [goal])
            if m:
                r = S.prove([subst(c, m) for c in a] + rng, subst(goal, m), (timeout or s.timeout) // 2)
                if r[0] == "proved": return r
                a += s.arg_equalities(m)
        return S.prove(a, goal, timeout or s.timeout)
    def digit_names(s, fs):
        """names for the bit-vector terms that specification functions are applied to: [(term, name)], their ranges.  Terms that are the same
        bit vector written differently (proved by the bit-vector solver) share the name"""
        import lia
        terms = {}; seen = set(); stk = [f for f in fs if not isc(f)]; m = []; rng = []; comp = {}
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); stk.extend(x.children())
            if z3.is_app(x) and x.decl().get_id() in s.defs:
                for i in range(x.num_args()):
                    for t, _ in lin(x.arg(i))[0].values():
                        if z3.is_app(t) and t.decl().kind() != z3.Z3_OP_UNINTERPRETED: terms[t.get_id()] = t
            elif z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ) and z3.is_bv(x.arg(0)) and x.arg(0).size() == 64:
                for i in (0, 1):
                    for t, _ in lin(x.arg(i))[0].values():
                        if z3.is_app(t) and t.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ITE): comp[t.get_id()] = t
        named = []
        for t in terms.values():
            for q, v in named:
                k = (t.get_id(), q.get_id())
                if k not in s.argeq: s.argeq[k] = (t, q, t.size() == q.size() and S.same_value(t, q))
                if s.argeq[k][2]: break
            else:
                v = z3.BitVec("digit!%d" % t.get_id(), t.size()); named.append((t, v)); at = lia.ATOM[lia.atom(t)]
                rng += [S.icmp("sge", v, at.lo & mask(at.w), at.w), S.icmp("sle", v, at.hi & mask(at.w), at.w)]
            m.append((t, v))
        for t in comp.values():
            if t.get_id() in terms: continue
            for q, v in named:
                k = (t.get_id(), q.get_id())
                if k not in s.argeq: s.argeq[k] = (t, q, t.size() == q.size() and S.same_value(t, q))
                if s.argeq[k][2]: m.append((t, v)); break
        return m, rng
    def arg_equalities(s, m):
        first = {}; out = []
        for t, v in m:
            if v.get_id() in first: out.append(t == first[v.get_id()])
            else: first[v.get_id()] = t
        return out
    def implied(s, st, c, timeout=3000):
        c = conc(c)
        if isc(c): return bool(c)
        r = s.prove(st, c, int(timeout * s.scale))[0]
        if r == "unknown": s.timeouts += 1
        return r == "proved"
    def feasible(s, st, c=True):
        if c is False: return False
        a = st.pc + [c]
        if st.facts or s.defs: a = a + s.insts(st, [c], 1)
        return S.feasible(a, quick=s.quickfeas)
    def decide(s, st, c):
        c = conc(c)
        if isc(c): return bool(c)
        x = conc(z3.simplify(c))
        if isc(x): return bool(x)
        t = s.feasible(st, c); f = s.feasible(st, Not(c))
        if t and f: raise Fork(c)
        return t
    def check(s, st, goal, name, detail=""):
        """an obligation"""
        if s.quiet: return
        t = time.time()
        goal = conc(goal)
        if s.deadline and t > s.deadline:
            s.obls.append(Obl(name, "unknown", 0, "time budget exhausted")); return
        r, m = s.prove(st, goal)
        s.obls.append(Obl(name, r, time.time() - t, detail if r == "proved" else (detail + " goal: " + str(goal)[:600]), m))

    # ------------------------------------------------------------ memory
    def addr_int(s, p):
        if not isinstance(p, Ptr): return p
        if p.r is None: return p.o
        if p.r.kind == "fn": return p
        return S.binop("add", p.r.addr, p.o, 64)
    def rel(s, st, a, n, b, m):
        """relation of [a,a+n) to [b,b+m): ('const', a-b) | 'eq' | 'disj' | 'unk'"""
        d = ldiff(a, b)
        if not d[0]: return ("const", sgn(d[1], 64))
        # offsets that are multiples of both widths apart can only be equal or disjoint
        e = unlin(d)
        k = (e.get_id(), n, m, len(st.pc), id(st.pc[-1]) if st.pc else 0)
        c = s._rel.get(k)
        if c is not None and c[0].eq(e): return c[1]
        if s.implied(st, Or(S.icmp("sge", e, m, 64), S.icmp("sle", e, (-n) & mask(64), 64)), 2000): r = "disj"
        elif n == m and s.implied(st, S.icmp("eq", e, 0, 64), 1500): r = "eq"
        else: r = "unk"
        s._rel[k] = (e, r)
        return r
    def read(s, st, r, off, n, node=0):
        if node == 0: node = st.mem.get(r.id)
        while node is not None:
            e, node = node
            if isinstance(e, W):
                q = s.rel(st, off, n, e.off, e.n)
                if q == "disj": continue
                if q == "eq": return e.val
                if q == "unk":
                    if n == e.n and not isinstance(e.val, Ptr):
                        d, c = ldiff(off, e.off)
                        if all(sgn(f, 64) % n == 0 for _, f in d.values()) and c % n == 0 or n == 1:
                            rest = s.read(st, r, off, n, node)
                            if isinstance(rest, Ptr): raise Unsupported("pointer/int mix at symbolic offset")
                            return If(S.icmp("eq", off, e.off, 64), e.val, rest, 8 * n)
                    raise Fork(And(S.icmp("sgt", S.binop("add", off, n, 64), e.off, 64), S.icmp("slt", off, S.binop("add", e.off, e.n, 64), 64))) \
                        if not s.known_fork(st, off, e.off) else Unsupported("read overlap unknown: %s of %s at %s+%s" % (off, r.name, e.off, e.n))
                d = q[1]
                if d >= e.n or d + n <= 0: continue
                if d == 0 and n == e.n: return e.val
                if d >= 0 and d + n <= e.n:
                    if isinstance(e.val, Ptr): raise Unsupported("part of a pointer")
                    return S.extract_bytes(e.val, e.n, d, n)
                # overlap: split into bytes
                parts = []
                i = 0
                while i < n:
                    lo = i + d
                    if 0 <= lo < e.n:
                        k = min(e.n - lo, n - i)
                        if isinstance(e.val, Ptr): raise Unsupported("part of a pointer")
                        parts.append((S.extract_bytes(e.val, e.n, lo, k), k)); i += k
                    else:
                        k = 1
                        while i + k < n and not (0 <= i + k + d < e.n): k += 1
                        # read k bytes below, power-of-two pieces
                        while k:
                            p = 1 << (k.bit_length() - 1)
                            v = s.read(st, r, norm(S.binop("add", off, i, 64)), p, node)
                            if isinstance(v, Ptr): raise Unsupported("part of a pointer")
                            parts.append((v, p)); i += p; k -= p
                return S.concat_bytes(parts)
            if isinstance(e, L):
                v = s.read_L(st, r, e, off, n, node)
                if v is not None: return v
                continue
            if isinstance(e, G):
                v = s.read_G(st, r, e, off, n, node)
                if v is not None: return v
                continue
            if isinstance(e, (C, F, H)):
                lo = e.lo if isinstance(e, H) else e.dst
                if isinstance(e, H) and e.len is None:
                    inr = True
                    if not (isc(e.lo) and e.lo == 0):
                        inside = S.icmp("sge", off, e.lo, 64)
                        if isc(off) and isc(e.lo) and sgn(off, 64) + n <= sgn(e.lo, 64): continue
                        if not s.implied(st, inside):
                            if s.implied(st, S.icmp("sle", S.binop("add", off, n, 64), e.lo, 64)): continue
                            raise Unsupported("read straddles a havocked range")
                else:
                    rel = S.binop("sub", off, lo, 64); rel = norm(rel)
                    inside = And(S.icmp("sge", rel, 0, 64), S.icmp("sle", S.binop("add", rel, n, 64), e.len, 64))
                    out = Or(S.icmp("sle", S.binop("add", rel, n, 64), 0, 64), S.icmp("sge", rel, e.len, 64))
                    if s.implied(st, inside): inr = True
                    elif s.implied(st, out): continue
                    else: inr = inside
                if isinstance(e, C):
                    so = norm(S.binop("add", S.binop("sub", off, e.dst, 64), e.src, 64))
                    mk = lambda: s.read(st, e.r, so, n, e.node)
                elif isinstance(e, F):
                    mk = lambda: S.concat_bytes([(e.byte, 1)] * n)
                else:
                    mk = lambda: s.havoc_read(e, off, n)
                if inr is True: return mk()
                # straddling a range end is excluded only if provable
                if not s.implied(st, Or(inside, out)):
                    raise Fork(inside) if not s.asserted(st, inside) else Unsupported("read straddles a copied range: %s %s %s %s" % (r.name, off, n, lo))
                a, b = mk(), s.read(st, r, off, n, node)
                if isinstance(a, Ptr) or isinstance(b, Ptr): raise Fork(inside)
                return If(inside, a, b, 8 * n)
            raise Unsupported("entry")
        if r.init is None: raise Unsupported("read of uninitialised memory in %s" % r.name)
        return r.init.read(s, st, off, n)
    def asserted(s, st, c):
        return any((not isc(p)) and (p.eq(c) or p.eq(S.zb(Not(c)))) for p in st.pc[-6:])
    def known_fork(s, st, a, b):
        c = And(S.icmp("sgt", S.binop("add", a, 1, 64), b, 64))
        return len(st.pc) > 400
    def havoc_read(s, e, off, n):
        if e.arr is not None: return e.arr(off, n)
        f = z3.Function("hv!%s_%d" % (e.tag, n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
        return f(S.bv(off, 64))
    def read_L(s, st, r, e, off, n, node):
        """None: not in the written range -> fall through"""
        d, c = ldiff(off, e.a)
        k = abs(e.stride)
        if all(sgn(f, 64) % k == 0 for _, f in d.values()):
            cs = sgn(c, 64); rem = cs % k
            if rem >= e.n and rem + n <= k: return None
            if rem + n <= e.n:
                u = unlin(ldiv((d, (cs - rem) & mask(64)), e.stride))
                du = ldiff(u, e.T)
                if not du[0] and sgn(du[1], 64) >= 0: return None
                rng = And(S.icmp("sge", u, 0, 64), S.icmp("slt", u, e.T, 64))
                g = subst(e.guard, [(e.u, u)])
                val = subst(e.val, [(e.u, u)])
                if isinstance(val, Ptr):
                    if rem or n != e.n:
                        if s.implied(st, Not(rng)): return None
                        raise Unsupported("part of a pointer written in loop")
                else: val = S.extract_bytes(val, e.n, rem, n)
                full = And(rng, g)
                st.inst = st.inst + [u]
                if s.implied(st, full): return val
                if s.implied(st, Not(full)): return None
                if isinstance(val, Ptr): raise Fork(full)
                rest = s.read(st, r, off, n, node)
                if isinstance(rest, Ptr): raise Fork(full)
                return If(full, val, rest, 8 * n)
            if rem == 0 and n % e.n == 0 and k == e.n:
                if e.stride > 0 and s.implied(st, Or(S.icmp("sle", S.binop("add", off, n, 64), e.a, 64), S.icmp("sge", off, S.binop("add", e.a, S.binop("mul", e.T, k, 64), 64), 64))): return None
                parts = []
                for i in range(n // e.n):
                    v = s.read(st, r, norm(S.binop("add", off, i * e.n, 64)), e.n, (e, node))
                    if isinstance(v, Ptr): raise Unsupported("ptr")
                    parts.append((v, e.n))
                return S.concat_bytes(parts)
        # disjoint from the whole range?
        last = S.binop("add", e.a, S.binop("mul", e.T, e.stride & mask(64), 64), 64)
        if e.stride > 0: out = Or(S.icmp("sle", S.binop("add", off, n, 64), e.a, 64), S.icmp("sge", off, last, 64), S.icmp("eq", e.T, 0, 64))
        else: out = Or(S.icmp("sge", off, S.binop("add", e.a, e.n, 64), 64), S.icmp("sle", S.binop("add", off, n, 64), S.binop("add", last, k - 0, 64), 64), S.icmp("eq", e.T, 0, 64))
        if s.implied(st, out): return None
        raise Unsupported("read overlaps loop writes (off=%s, a=%s, stride=%d, n=%d/%d)" % (off, e.a, e.stride, n, e.n))
    def read_G(s, st, r, e, off, n, node):
        """scatter entry.  Sound cases: (1) provably outside every written location; (2) the location of iteration k where later
        iterations provably write elsewhere."""
        # candidates for k: match off - off(u) == 0
        for k in s.match_terms(e.off, e.u, off):
            m = [(e.u, k)]
            ok = And(S.icmp("sge", k, 0, 64), S.icmp("slt", k, e.T, 64), subst(e.guard, m), S.icmp("eq", subst(e.off, m), off, 64))
            if n == e.n and s.implied(st, ok):
                # later writes elsewhere: for arbitrary v in (k, T): guard(v) -> off(v) disjoint
                v = s.fresh_const("v"); s2 = st.copy(); s2.inst = s2.inst + [v, norm(S.binop("add", k, 1, 64)), k]
                s2.assume(S.icmp("sgt", v, k, 64)); s2.assume(S.icmp("slt", v, e.T, 64)); mv = [(e.u, v)]
                s2.assume(subst(e.guard, mv))
                ov = subst(e.off, mv); dd = S.binop("sub", ov, off, 64)
                for lem in e.loop.monotone_lemmas(s, st, S.binop("add", k, 1, 64), v): s2.assume(lem)
                if s.implied(s2, Or(S.icmp("sge", dd, n, 64), S.icmp("sle", dd, (-e.n) & mask(64), 64)), 5000): return subst(e.val, m)
        v = s.fresh_const("v"); s2 = st.copy(); s2.inst = s2.inst + [v]
        s2.assume(S.icmp("sge", v, 0, 64)); s2.assume(S.icmp("slt", v, e.T, 64)); s2.assume(subst(e.guard, [(e.u, v)]))
        for lem in e.loop.monotone_lemmas(s, st, 0, v): s2.assume(lem)
        dd = S.binop("sub", subst(e.off, [(e.u, v)]), off, 64)
        if s.implied(s2, Or(S.icmp("sge", dd, n, 64), S.icmp("sle", dd, (-e.n) & mask(64), 64)), 5000): return None
        raise Unsupported("read from scattered loop writes")
    def match_terms(s, pat, u, e):
        """index terms k such that pat[u:=k] could equal e, from UF applications"""
        pats = []; st = [pat] if not isc(pat) else []
        while st:
            x = st.pop()
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                    for j, a in enumerate(x.children()):
                        if a.eq(u): pats.append((x.decl(), j))
                st.extend(x.children())
        out = []; st = [e] if not isc(e) else []
        while st:
            x = st.pop()
            if z3.is_app(x):
                for d, j in pats:
                    if x.decl().eq(d) and not any(x.arg(j).eq(o) for o in out): out.append(x.arg(j))
                st.extend(x.children())
        return out
    def write(s, st, r, off, n, val):
        st.mem[r.id] = (W(off, n, val), st.mem.get(r.id))
    def push(s, st, r, e): st.mem[r.id] = (e, st.mem.get(r.id))
    def inbounds(s, st, p, n, name):
        if p.r is None:
            s.check(st, False, name + ":null", "null or wild pointer dereference (address %s)" % (p.o,)); raise PathEnd()
        if p.r.kind == "fn": raise Unsupported("access to code")
        sz = p.r.size
        if sz is None or not s.bounds: return
        if isc(p.o) and isc(sz):
            if 0 <= p.o and p.o + n <= sz:
                if not s.quiet: s.nbounds_trivial = getattr(s, "nbounds_trivial", 0) + 1
                return
        if s.quiet: return
        c = And(S.icmp("sge", p.o, 0, 64), S.icmp("sle", S.binop("add", p.o, n, 64), sz, 64))
        s.check(st, c, name + ":bounds", "access of %d bytes at %s of %s" % (n, str(p.o)[:120], p.r.name))
    def load(s, st, p, n, isptr, name="load"):
        if not isinstance(p, Ptr): raise Unsupported("load through non-pointer value %s" % str(p)[:80])
        if p.r is None and s.opaque and not isc(p.o):      # a value a callee returned: readable, contents arbitrary, not modified here
            v = z3.Function("ob!%d" % n, z3.BitVecSort(64), z3.BitVecSort(8 * n))(norm(p.o))
            return Ptr(None, v) if isptr else v
        s.inbounds(st, p, n, name)
        v = s.read(st, p.r, p.o, n)
        if isptr and not isinstance(v, Ptr):
            if isc(v): v = Ptr(None, v)
            else: v = s.as_ptr(v)
        return v
    def as_ptr(s, v):
        return Ptr(None, v)     # an integer used as a pointer: any access through it is reported
    def store(s, st, p, n, v, name="store"):
        if not isinstance(p, Ptr): raise Unsupported("store through non-pointer")
        if isinstance(v, Ptr) and v.r is None and not isc(v.o): v = v.o
        s.inbounds(st, p, n, name)
        if not p.r.writable:
            s.check(st, False, name + ":frame", "write to memory outside the frame: %s" % p.r.name)
        s.write(st, p.r, p.o, n, v)

    # ------------------------------------------------------------ globals
    def glob(s, mod, name):
        if name in s.globals: return s.globals[name]
        f = s.w.find(mod, name)
        if f is not None or name in mod.decls:
            p = Ptr(FnPtr(name), 0); s.globals[name] = p; return p
        g, gm = s.w.find_glob(mod, name)
        key = name if g is None or not g.const else (gm.name, name)
        if key in s.globals: return s.globals[key]
        if name in s.global_init:
            p = s.global_init[name](s, name); s.globals[name] = p; return p
        if g is None or g.ty is None: raise Unsupported("global " + name)
        sz = gm.size(g.ty)
        r = Region("@" + name, sz, None, "global", writable=not g.const)
        if g.const and g.init is not None:
            r.init = Init(lazy=const_reader(s, gm, g))
            r.init_glob = (gm, g)
        else:
            # mutable global: arbitrary contents
            def lazy(eng, st, off, n, nm=name):
                return z3.BitVec("glob_%s_%s" % (nm, off), 8 * n) if isc(off) else None
            r.init = Init(lazy=lazy)
        p = Ptr(r, 0); s.globals[key] = p
        return p

    # ------------------------------------------------------------ operands
    def val(s, st, regs, op, mod):
        k = op.k
        if k == "local":
            try: return regs[op.v]
            except KeyError: raise Unsupported("undefined register " + op.v)
        if k == "const":
            ty = op.ty
            if ty.n == 1: return bool(op.v)
            return op.v & mask(ty.n)
        if k == "null": return NULL
        if k == "global": return s.glob(mod, op.v)
        if k == "float":
            if op.ty.k == "float": return S.D2B(S.B2D(op.v)) & 0xFFFFFFFF if False else op.v
            return op.v
        if k == "undef":
            return s.fresh_ty("undef", op.ty, mod) if op.ty.k not in ("metadata",) else None
        if k == "zero": return s.zero(mod.resolve(op.ty), mod)
        if k == "agg": return tuple(s.val(st, regs, x, mod) for x in op.args)
        if k == "expr":
            if op.v == "gep":
                bt = op.args[0]; return s.gep(st, bt, [s.val(st, regs, x, mod) for x in op.args[1:]], [x.ty for x in op.args[1:]], mod)
            if op.v in ("inttoptr", "ptrtoint", "bitcast"):
                v = s.val(st, regs, op.args[0], mod); return s.cast(op.v, v, op.args[0].ty, op.ty, mod)
            a = s.val(st, regs, op.args[0], mod); b = s.val(st, regs, op.args[1], mod)
            return s.arith(op.v, a, b, op.ty.n)
        raise Unsupported("operand " + k)
    def zero(s, ty, mod):
        if ty.k == "int": return False if ty.n == 1 else 0
        if ty.k in ("double", "float"): return 0
        if ty.k == "ptr": return NULL
        if ty.k == "struct": return tuple(s.zero(mod.resolve(f), mod) for f in ty.fields)
        if ty.k in ("arr", "vec"): return tuple(s.zero(mod.resolve(ty.elt), mod) for _ in range(ty.n))
        raise Unsupported("zero")
    def gep(s, st, bt, vals, tys, mod):
        p = vals[0]
        if isinstance(p, int): p = Ptr(None, p)
        if not isinstance(p, Ptr): raise Unsupported("gep on non-pointer")
        o = p.o; ty = bt
        for i, v in enumerate(vals[1:]):
            if i == 0:
                sz = mod.size(ty)
            else:
                ty = mod.resolve(ty)
                if ty.k == "struct":
                    d, ty = mod.offset(ty, v); o = S.binop("add", o, d, 64); continue
                ty = ty.elt; sz = mod.size(ty)
            w = tys[i + 1].n
            if isinstance(v, Ptr): v = s.addr_int(v)
            if w < 64: v = S.sext(v, w, 64)
            if isc(v): v = sgn(v, 64) & mask(64)
            o = S.binop("add", o, S.binop("mul", v, sz, 64), 64)
        return Ptr(p.r, norm(o))
    def cast(s, op, v, fty, tty, mod):
        if op in ("bitcast", "freeze"):
            return v
        if op == "ptrtoint":
            if isinstance(v, Ptr) and v.r is None: return v.o
            return v
        if op == "inttoptr":
            if isinstance(v, Ptr): return v
            if isc(v): return Ptr(None, v)
            return s.int_to_ptr(v)
        if isinstance(v, Ptr):
            if op in ("trunc",) : v = s.addr_int(v)
            else: raise Unsupported("cast %s of pointer" % op)
        if op == "trunc": return S.trunc(v, fty.n, tty.n)
        if op == "zext": return S.zext(v, fty.n, tty.n)
        if op == "sext": return S.sext(v, fty.n, tty.n)
        if op in ("sitofp", "uitofp"):
            if tty.k != "double": raise Unsupported("float32")
            if fty.n == 1: v = S.zext(v, 1, 64) if op == "uitofp" else S.sext(v, 1, 64); return S.itof(v, 64, True)
            return S.itof(v, fty.n, op == "sitofp")
        if op in ("fptosi", "fptoui"):
            if fty.k != "double": raise Unsupported("float32")
            return S.ftoi(v, tty.n, op == "fptosi")
        raise Unsupported("cast " + op)
    def int_to_ptr(s, v):
        # base + off where the base address symbol of a region occurs with coefficient 1
        d, c = lin(v)
        for k, (a, f) in d.items():
            if f == 1 and a.get_id() in s.addr_map():
                r = s.addr_map()[a.get_id()]
                return Ptr(r, norm(S.binop("sub", v, a, 64)))
        return Ptr(None, v)            # an integer carried in a pointer: no memory behind it
    def addr_map(s): return {}
    def arith(s, op, a, b, w):
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if op == "add" and pa != pb:
                return a.add(b) if pa else b.add(a)
            if op == "sub" and pa and not pb: return a.add(S.binop("sub", 0, b, 64))
            if op == "sub" and pa and pb and a.r is b.r: return norm(S.binop("sub", a.o, b.o, 64))
            if op == "and" and pa and isc(b):
                al = a.r.align if a.r else 1
                if b < al: return S.binop("and", a.o, b, 64)
                m = (~b) & mask(64)
                if m < al: return Ptr(a.r, norm(S.binop("and", a.o, b, 64)))
            if op == "and" and pb and isc(a): return s.arith(op, b, a, w)
            a = s.addr_int(a); b = s.addr_int(b)
            if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported("arith on code pointers")
        return S.binop(op, a, b, w)
    def icmp(s, st, pred, a, b, w):
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if pa and pb and a.r is b.r and not (a.r is not None and a.r.kind == "fn"):
                if pred in ("eq", "ne"): return S.icmp(pred, a.o, b.o, 64)
                return S.icmp("s" + pred[1:], a.o, b.o, 64)
            if pa and a.r is not None and a.r.kind == "fn" or pb and b.r is not None and b.r.kind == "fn":
                eq = pa and pb and a.r is not None and b.r is not None and a.r.kind == b.r.kind == "fn" and a.r.name == b.r.name
                if pred in ("eq", "ne"): return eq if pred == "eq" else not eq
            ia = a if not pa else (a.o if a.r is None else None)
            ib = b if not pb else (b.o if b.r is None else None)
            if ia is None and ib is None or (ia is None or ib is None) and isc(ia if ia is not None else ib) and (ia if ia is not None else ib) < 4096:
                # distinct objects, or object against NULL / small constants
                if pred == "eq": return False
                if pred == "ne": return True
                if ia is None and ib is not None: return pred in ("ugt", "uge", "sgt", "sge")
                if ib is None and ia is not None: return pred in ("ult", "ule", "slt", "sle")
            a = s.addr_int(a); b = s.addr_int(b)
        return S.icmp(pred, a, b, w)

    # ------------------------------------------------------------ instructions
    def width(s, ty):
        return {"int": ty.n, "double": 64, "ptr": 64, "float": 32}[ty.k]
    def step(s, fn, st, regs, ins):
        """executes one non-control instruction; returns None (done in place) or list of (st, ret) for calls"""
        mod = fn.mod; op = ins.op; V = lambda o: s.val(st, regs, o, mod)
        if op in S_BIN:
            a, b = V(ins.a[0]), V(ins.a[1])
            if ins.ty.k == "vec": raise Unsupported("vector op")
            if ins.ty.k == "float": raise Unsupported("float32")
            w = s.width(ins.ty)
            if op in ("sdiv", "udiv", "srem", "urem") and not s.quiet:
                if isinstance(b, Ptr): raise Unsupported("ptr div")
                if not (isc(b) and b != 0): s.check(st, S.icmp("ne", b, 0, w), s.at(fn, "div0"), "division by zero")
                if op in ("sdiv", "srem") and not (isc(b) and sgn(b, w) != -1) and not isinstance(a, Ptr):
                    s.check(st, Not(And(S.icmp("eq", a, 1 << (w - 1), w), S.icmp("eq", b, mask(w), w))), s.at(fn, "divovf"), "signed division overflow")
            r = s.arith(op, a, b, w)
            if op in ("add", "sub") and "nsw" in ins.x and w == 32 and not isc(r): s.narrow(r, op, a, b)
            regs[ins.dst] = r; return
        if op == "icmp":
            a, b = V(ins.a[0]), V(ins.a[1]); regs[ins.dst] = s.icmp(st, ins.x, a, b, s.width(ins.ty)); return
        if op == "fcmp":
            regs[ins.dst] = S.fcmp(ins.x, V(ins.a[0]), V(ins.a[1])); return
        if op == "fneg":
            regs[ins.dst] = S.fneg(V(ins.a[0])); return
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui"):
            regs[ins.dst] = s.cast(op, V(ins.a[0]), ins.a[0].ty, ins.ty, mod); return
        if op == "freeze": regs[ins.dst] = V(ins.a[0]); return
        if op == "gep":
            regs[ins.dst] = s.gep(st, ins.x, [V(x) for x in ins.a], [x.ty for x in ins.a], mod); return
        if op == "load":
            ty = mod.resolve(ins.ty)
            regs[ins.dst] = s.load_ty(st, V(ins.a[0]), ty, mod, s.at(fn, "load")); return
        if op == "store":
            s.store_ty(st, V(ins.a[1]), V(ins.a[0]), mod.resolve(ins.a[0].ty), mod, s.at(fn, "store")); return
        if op == "select":
            c = V(ins.a[0]); a, b = V(ins.a[1]), V(ins.a[2])
            if s.selfork and not isc(c) and not same(a, b): c = s.decide(st, c)
            regs[ins.dst] = s.ite(st, c, a, b, s.width(ins.ty) if ins.ty.k in ("int", "double", "ptr") else None); return
        if op == "alloca":
            n = mod.size(ins.x)
            if ins.a:
                k = V(ins.a[0]); sz = norm(S.binop("mul", S.zext(k, ins.a[0].ty.n, 64), n, 64))
            else: sz = n
            r = Region("alloca." + fn.name + ins.dst, sz, UninitStack(), "stack", 16)
            regs[ins.dst] = Ptr(r, 0); return
        if op == "extractvalue":
            v = V(ins.a[0])
            for i in ins.x: v = v[i]
            regs[ins.dst] = v; return
        if op == "insertvalue":
            v = list(V(ins.a[0])); e = V(ins.a[1])
            if len(ins.x) != 1: raise Unsupported("nested insertvalue")
            v[ins.x[0]] = e; regs[ins.dst] = tuple(v); return
        if op == "atomicrmw":
            p, v = V(ins.a[0]), V(ins.a[1]); w = s.width(ins.ty)
            old = s.load(st, p, w // 8, ins.ty.k == "ptr", s.at(fn, "atomic"))
            nv = v if ins.x == "xchg" else s.arith(ins.x, old, v, w)
            s.store(st, p, w // 8, nv, s.at(fn, "atomic")); regs[ins.dst] = old; return
        if op == "cmpxchg":
            p, e, v = (V(x) for x in ins.a); w = s.width(ins.ty)
            old = s.load(st, p, w // 8, ins.ty.k == "ptr", s.at(fn, "atomic"))
            ok = s.decide(st, s.icmp(st, "eq", old, e, w))
            if ok: s.store(st, p, w // 8, v, s.at(fn, "atomic"))
            regs[ins.dst] = (old, ok); return
        if op == "nop": return
        if op == "asm": return
        if op == "call": return s.call(fn, st, regs, ins)
        raise Unsupported("instruction " + op)
    def narrow(s, r, op, a, b):
        """r = a op b in i32 without signed wrap: remember sext64(r) = sext64(a) op sext64(b) (signed overflow is undefined)"""
        def wide(x):
            if isc(x): return sgn(x, 32) & mask(64)
            k = S.NARROW.get(x.get_id())
            if k is not None and k[0].eq(x): return k[1]
            return None
        wa, wb = wide(a), wide(b)
        if wa is not None and wb is not None and r.get_id() not in S.NARROW: S.NARROW[r.get_id()] = (r, norm(S.binop(op, wa, wb, 64)))
    def ite(s, st, c, a, b, w):
        if isc(c): return a if c else b
        if same(a, b): return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and (a.r is None or a.r.kind != "fn"):
                return Ptr(a.r, norm(If(c, a.o, b.o, 64)))
            return a if s.decide(st, c) else b
        if isinstance(a, tuple): return tuple(s.ite(st, c, x, y, None) for x, y in zip(a, b))
        return If(c, a, b, w)
    def load_ty(s, st, p, ty, mod, name):
        if ty.k == "struct": 
            out = []
            for i in range(len(ty.fields)):
                o, f = mod.offset(ty, i); out.append(s.load_ty(st, p.add(o), mod.resolve(f), mod, name))
            return tuple(out)
        if ty.k in ("arr", "vec"):
            z = mod.size(ty.elt); return tuple(s.load_ty(st, p.add(i * z), mod.resolve(ty.elt), mod, name) for i in range(ty.n))
        n = mod.size(ty); v = s.load(st, p, n, ty.k == "ptr", name)
        if ty.k == "int" and ty.n == 1: v = S.trunc(v, 8, 1)
        return v
    def store_ty(s, st, p, v, ty, mod, name):
        if ty.k == "struct":
            for i in range(len(ty.fields)):
                o, f = mod.offset(ty, i); s.store_ty(st, p.add(o), v[i], mod.resolve(f), mod, name)
            return
        if ty.k in ("arr", "vec"):
            z = mod.size(ty.elt)
            for i in range(ty.n): s.store_ty(st, p.add(i * z), v[i], mod.resolve(ty.elt), mod, name)
            return
        if ty.k == "int" and ty.n == 1: v = S.zext(v, 1, 8) if not isinstance(v, Ptr) else v
        s.store(st, p, mod.size(ty), v, name)
    def at(s, fn, what): return "%s/%s" % (fn.name, what)

    # ------------------------------------------------------------ calls
    def call(s, fn, st, regs, ins):
        mod = fn.mod
        f = s.val(st, regs, ins.x, mod) if ins.x.k != "global" else None
        if f is not None:
            if not (isinstance(f, Ptr) and f.r is not None and f.r.kind == "fn"): raise Unsupported("indirect call through %s" % (f,))
            name = f.r.name
        else: name = ins.x.v
        if name.startswith("llvm."):
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.prefetch", "llvm.va_", "llvm.experimental.noalias", "llvm.stackrestore")): return
            if name.startswith("llvm.stacksave"): regs[ins.dst] = NULL; return
        args = [s.val(st, regs, a, mod) for a in ins.a]
        return s.invoke(mod, name, args, st, ins)
    def invoke(s, mod, name, args, st, ins=None):
        c = s.contracts.get(name)
        if c is not None:
            s.used_contracts.add(name); return c(s, st, args, ins)
        import builtins_ir
        b = builtins_ir.find(name)
        if b is not None:
            s.builtins_used.add(name.split(".p0")[0]); return b(s, st, args, ins)
        f = s.w.find(mod, name)
        if f is None or name in s.noinline: raise Unsupported("call to %s without contract" % name)
        if s.depth >= s.maxdepth: raise Unsupported("inline depth at " + name)
        s.inlined.add(name)
        outs = s.exec_func(f, args, st)
        if s.joinret and len(outs) > 1 and all(isc(r) or (r is not None and z3.is_bv(r)) for _, r in outs) and str(f.rty).split()[-1] in RETW:
            w = RETW[str(f.rty).split()[-1]]
            l = s.merge_states([(a, {"ret": S.bv(r, w)}, None, None) for a, r in outs])
            if all("ret" in x[1] for x in l):
                outs = [(x[0], conc(x[1]["ret"])) for x in l]
                for a, _ in outs:
                    if len(a.pc) > len(st.pc) and s.implied(st, And(*a.pc[len(st.pc):])): a.pc = a.pc[:len(st.pc)]
        return outs
    def exec_func(s, fn, args, st):
        """-> list of (state, return value)"""
        if getattr(fn, "va", False): raise Unsupported("varargs function " + fn.name)
        regs = {p[0]: a for p, a in zip(fn.params, args)}
        s.depth += 1
        try:
            outs = s.region_exec(fn, [(st, regs, fn.order_entry, None, None)], None, None)
        finally: s.depth -= 1
        res = []
        for o in outs:
            assert o[0] == "ret"; res.append((o[1], o[2]))
        return res

    # ------------------------------------------------------------ blocks
    def region_exec(s, fn, items, within, header):
        outs = []; work = list(items)
        loops = fn.loops
        while work:
            if s.deadline and time.time() > s.deadline: raise Unsupported("time budget exhausted in " + fn.name)
            st, regs, b, pred, idx = work.pop()
            if idx is None and pred is not None:
                if within is not None and (b not in within or b == header):
                    outs.append(("edge", st, regs, b, pred)); continue
                if b in loops:
                    for o in s.loop(fn, st, regs, b, pred):
                        if o[0] == "ret": outs.append(o)
                        else: work.append((o[1], o[2], o[3], o[4], None))
                    continue
            try: s.run_block(fn, st, regs, b, pred, idx, work, outs)
            except PathEnd: pass
        return outs
    def phis(s, fn, st, regs, b, pred):
        new = {}
        for ins in fn.blocks[b]:
            if ins.op != "phi": break
            for v, p in ins.a:
                if p == pred: new[ins.dst] = s.val(st, regs, v, fn.mod); break
            else: raise Unsupported("phi without edge")
        regs.update(new)
    def run_block(s, fn, st, regs, b, pred, idx, work, outs):
        ins_list = fn.blocks[b]; i = idx
        if i is None:
            i = 0
            if pred is not None: s.phis(fn, st, regs, b, pred)
            while ins_list[i].op == "phi": i += 1
        while True:
            ins = ins_list[i]; op = ins.op
            try:
                if op in ("br", "cbr", "switch", "ret", "unreachable", "indirectbr"): break
                if op == "call":
                    st2 = st.copy(); regs2 = dict(regs)
                    res = s.step(fn, st2, regs2, ins)
                    if res is None: st, regs = st2, regs2
                    else:
                        for k, (sk, rv) in enumerate(res):
                            rg = dict(regs2) if len(res) > 1 else regs2
                            if ins.dst: rg[ins.dst] = rv
                            if k == len(res) - 1: pass
                            if len(res) > 1: work.append((sk, rg, b, pred, i + 1))
                        if len(res) == 0: return
                        if len(res) > 1: return
                        st, regs = res[0][0], rg
                else: s.step(fn, st, regs, ins)
            except Fork as f:
                if s.depth_fork(st): raise Unsupported("too many forks")
                a = st.copy(); a.assume(f.cond); c = st.copy(); c.assume(Not(f.cond))
                work.append((c, dict(regs), b, pred, i)); work.append((a, dict(regs), b, pred, i))
                return
            i += 1
        try:
            if op == "br": work.append((st, regs, ins.a[0], b, None)); return
            if op == "cbr":
                c = s.val(st, regs, ins.a[0], fn.mod)
                try: t = s.decide(st, c)
                except Fork:
                    a = st.copy(); a.assume(c); n = st.copy(); n.assume(Not(c))
                    work.append((n, dict(regs), ins.a[2], b, None)); work.append((a, dict(regs), ins.a[1], b, None)); return
                if not isc(c): st.assume(c if t else Not(c))
                work.append((st, regs, ins.a[1] if t else ins.a[2], b, None)); return
            if op == "switch":
                v = s.val(st, regs, ins.a[0], fn.mod); w = ins.a[0].ty.n
                if isinstance(v, Ptr): raise Unsupported("switch on pointer")
                if isc(v):
                    for cv, tgt in ins.a[2]:
                        if (cv & mask(w)) == v: work.append((st, regs, tgt, b, None)); return
                    work.append((st, regs, ins.a[1], b, None)); return
                bytgt = {}
                for cv, tgt in ins.a[2]: bytgt.setdefault(tgt, []).append(S.icmp("eq", v, cv & mask(w), w))
                allc = [x for l in bytgt.values() for x in l]
                dflt = And(*[Not(x) for x in allc])
                if ins.a[1] in bytgt: bytgt[ins.a[1]] = [Or(*bytgt[ins.a[1]], dflt)]
                else: bytgt[ins.a[1]] = [dflt]
                for tgt, cs in bytgt.items():
                    c = Or(*cs)
                    if s.feasible(st, c):
                        n = st.copy(); n.assume(c); work.append((n, dict(regs), tgt, b, None))
                return
            if op == "ret":
                outs.append(("ret", st, s.val(st, regs, ins.a[0], fn.mod) if ins.a else None)); return
            if op == "unreachable": return
        except Fork: raise Unsupported("fork in terminator")
        raise Unsupported("terminator " + op)
    def depth_fork(s, st): return len(st.pc) > 600

    # ------------------------------------------------------------ loops
    def loop(s, fn, st0, regs0, H, pred):
        """summarise the natural loop with header H entered from pred; returns exit edges / rets"""
        body = fn.loops[H]
        r = s.try_unroll(fn, st0, regs0, H, pred, body)
        if r is not None: return r
        return Summariser(s, fn, st0, regs0, H, pred, body).run()
    def merge_states(s, l):
        """join the states of one unrolled iteration (same control point, same shape of memory); a state that does not fit stays apart"""
        acc = None; rest = []
        for st, regs, H, p in l:
            if acc is None: acc = (st, regs, H, p); continue
            m = s.merge2(acc, (st, regs, H, p))
            if m is None: rest.append((st, regs, H, p))
            else: acc = m
        return [acc] + rest
    def merge2(s, x, y):
        a, ra, H, p = x; b, rb, _, q = y
        if p != q or len(a.loops) != len(b.loops) or any(u is not v for u, v in zip(a.loops, b.loops)): return None
        if a.ghost != b.ghost: return None
        k = 0
        while k < min(len(a.pc), len(b.pc)) and same(a.pc[k], b.pc[k]): k += 1
        ca, cb = And(*a.pc[k:]), And(*b.pc[k:])
        def val(u, v, w=None):
            if u is v or same(u, v): return u
            if isinstance(u, Ptr) and isinstance(v, Ptr):
                if u.r is not v.r or (u.r is not None and u.r.kind == "fn"): raise KeyError
                return Ptr(u.r, norm(If(ca, u.o, v.o, 64)))
            if isinstance(u, (Ptr, tuple, list)) or isinstance(v, (Ptr, tuple, list)): raise KeyError
            w = w or (u.size() if not isc(u) and z3.is_bv(u) else v.size() if not isc(v) and z3.is_bv(v) else None)
            if w is None and not (isinstance(u, bool) or isinstance(v, bool) or (not isc(u) and z3.is_bool(u))): raise KeyError
            if w is None: return Or(And(ca, u), And(Not(ca), v))
            return If(ca, u, v, w)
        st = a.copy(); st.pc = list(a.pc[:k]); st.assume(Or(ca, cb))
        try:
            regs = {}
            for n in ra:
                if n not in rb: continue
                try: regs[n] = val(ra[n], rb[n])
                except KeyError: pass    # a value that cannot be joined is left out: its use is then an error
            for rid in set(a.mem) | set(b.mem):
                na, nb = a.mem.get(rid), b.mem.get(rid)
                if na is nb: continue
                ids = set(); n = nb
                while n is not None: ids.add(id(n)); n = n[1]
                ea = []; n = na
                while n is not None and id(n) not in ids: ea.append(n[0]); n = n[1]
                base = n; eb = []; n = nb
                while n is not base: eb.append(n[0]); n = n[1]
                if len(ea) != len(eb): return None
                cur = base
                for u, v in zip(reversed(ea), reversed(eb)):
                    if u is v: cur = (u, cur); continue
                    if not (isinstance(u, W) and isinstance(v, W) and u.n == v.n and same(u.off, v.off)): return None
                    cur = (W(u.off, u.n, val(u.val, v.val, 8 * u.n)), cur)
                st.mem[rid] = cur
        except KeyError: return None
        fb = {id(f) for f in b.facts}; st.facts = [f for f in a.facts if id(f) in fb]
        return (st, regs, H, p)
    def try_unroll(s, fn, st0, regs0, H, pred, body, limit=70):
        bound = s.unroll.get(fn.name)
        if isinstance(bound, tuple): bound = bound[1] if not any(H in b and h != H for h, b in fn.loops.items()) else None   # ("outer", n): outermost loops only
        outs = []; cur = [(st0.copy(), dict(regs0), H, pred)]
        sq, ob = s.quiet, len(s.obls)
        for it in range(bound if bound is not None else limit):
            nxt = []
            for st, regs, b, p in cur:
                s.phis(fn, st, regs, H, p)
                o = s.region_exec(fn, [(st, regs, H, None, None)], body, H)
                back = [x for x in o if x[0] == "edge" and x[3] == H]; ex = [x for x in o if not (x[0] == "edge" and x[3] == H)]
                if bound is None and ((back and ex) or len(back) > 4):
                    del s.obls[ob:]; return None
                outs += ex; nxt += [(x[1], x[2], H, x[4]) for x in back]
            if s.mergeback and len(nxt) > 1: nxt = s.merge_states(nxt)
            cur = nxt
            if not cur: return outs
            if bound is None and (len(cur) > 8 or len(outs) > 64): del s.obls[ob:]; return None
            if bound is None and it == 3 and not any(isc(v) for v in [cur[0][1].get(q.dst) for q in fn.blocks[H] if q.op == "phi"]):
                del s.obls[ob:]; return None
        if bound is not None:
            s.bounded_used.add("%s unrolled %d" % (fn.name, bound))
            # unwinding assertion: the remaining states must be infeasible, otherwise the result is bounded
            rest = [c for c in cur if s.feasible(c[0])]
            if rest: s.bounded_used.add("%s: iterations beyond %d not explored" % (fn.name, bound))
            return outs
        del s.obls[ob:]
        return None

S_BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
class PathEnd(Exception): pass

class UninitStack:
    def read(s, eng, st, off, n): return eng.fresh("uninit", 8 * n)

def const_reader(eng, mod, g):
    """reader of constant globals; symbolic offsets into arrays become If chains"""
    def flat(op, ty):
        ty = mod.resolve(ty); n = mod.size(ty)
        return flatten(eng, mod, op, ty)
    cache = {}
    def lazy(e, st, off, n):
        if "b" not in cache: cache["b"] = flatten(eng, mod, g.init, mod.resolve(g.ty), eng)
        cells = cache["b"]
        if isc(off):
            c = cells.get(off)
            if c and c[0] == n: return c[1]
            for o, (w, v) in cells.items():
                if o <= off and off + n <= o + w and not isinstance(v, Ptr): return S.extract_bytes(v, w, off - o, n)
            parts = []; p = off
            while p < off + n and p in cells and not isinstance(cells[p][1], Ptr): parts.append((cells[p][1], cells[p][0])); p += cells[p][0]
            if p == off + n: return S.concat_bytes(parts)
            raise Unsupported("const global cell")
        # array with symbolic index
        cand = sorted(o for o, (w, v) in cells.items() if w == n)
        d, c = lin(off); 
        import math as _m
        k = 0
        for _, f in d.values(): k = _m.gcd(k, abs(sgn(f, 64)))
        k = k & -k if k == 0 else k
        sel = [o for o in cand if k == 0 or (o - sgn(c, 64)) % k == 0]
        if len(sel) > 400: raise Unsupported("large table")
        if not sel: raise Unsupported("table access width")
        if any(isinstance(cells[o][1], Ptr) for o in sel):
            for o in sel:
                if e.decide(st, S.icmp("eq", off, o, 64)): return cells[o][1]
            raise Unsupported("table")
        r = cells[sel[-1]][1]
        for o in reversed(sel[:-1]): r = If(S.icmp("eq", off, o, 64), cells[o][1], r, 8 * n)
        return r
    return lazy
def flatten(eng, mod, op, ty, e=None):
    out = {}
    def go(op, ty, base):
        ty = mod.resolve(ty); k = op.k
        if ty.k in ("arr", "vec"):
            z = mod.size(ty.elt)
            if k == "str":
                for i, b in enumerate(op.v): out[base + i] = (1, b)
                return
            if k in ("zero", "undef"):
                from ir import Op
                for i in range(min(ty.n, 4096)): go(Op("zero", None, ty.elt), ty.elt, base + i * z)
                return
            for i, x in enumerate(op.args): go(x, ty.elt, base + i * z)
            return
        if ty.k == "struct":
            from ir import Op
            for i in range(len(ty.fields)):
                o, f = mod.offset(ty, i)
                go(op.args[i] if k == "agg" else Op("zero", None, f), f, base + o)
            return
        v = eng.val(None, {}, op, mod) if k != "zero" else eng.zero(ty, mod)
        if isinstance(v, bool): v = int(v)
        out[base] = (mod.size(ty), v)
    go(op, ty, 0)
    return out

# ---------------------------------------------------------------- loop summariser
class Var:
    """a loop-carried variable: a header phi or a memory cell written at a loop-invariant address"""
    def __init__(s, key, init, w, isptr): s.key, s.init, s.w, s.isptr = key, init, w, isptr; s.kind = "unknown"; s.c = None; s.fn = None; s.step = None; s.nsw = False

class Summariser:
    def __init__(s, eng, fn, st0, regs0, H, pred, body):
        s.e, s.fn, s.H, s.pred, s.body = eng, fn, H, pred, body
        s.st0, s.regs0 = st0, regs0
        s.outer = list(eng.ctr)
        eng.nfresh += 1; s.id = eng.nfresh
        s.t = z3.BitVec("t!%d" % s.id, 64)           # generic iteration
        s.u = z3.BitVec("u!%d" % s.id, 64)           # bound variable of the summaries
        s.vars = []; s.entries = {}                  # rid -> list of entries (template in u, T)
        s.B = None; s.steps = {}
        s.inv = []                                    # list of conditions in t proved inductive
        s.cells = {}                                  # (rid, off key, n) -> Var
        s.regions = {}
        s.tmpl = {}                                   # rid -> candidate array invariants left, the first one is in use
    def run(s):
        e = s.e
        s.init_vars()
        prev = None
        e.ctr.append(s.t); e.sums.append(s)
        try:
            for rnd in range(9 if not e.arrays else 40):
                e.quiet += 1
                try: outs = s.execute()
                finally: e.quiet -= 1
                sig = s.learn(outs)
                if sig == prev: break
                prev = sig
            else: raise Unsupported("loop summary of %s does not stabilise" % s.fn.name)
            s.houdini(outs)
            # final pass: record obligations, produce exits
            nq = len(e.obls)
            outs = s.execute()
            back = [o for o in outs if o[0] == "edge" and o[3] == s.H]
            s.verify_steps(back)
        finally: e.ctr.pop(); e.sums.pop()
        return s.exits(outs)
    # -- variables
    def init_vars(s):
        e, fn = s.e, s.fn
        regs = dict(s.regs0); e.phis(fn, s.st0, regs, s.H, s.pred)
        s.regs_in = regs
        for ins in fn.blocks[s.H]:
            if ins.op != "phi": break
            v = regs[ins.dst]
            isptr = isinstance(v, Ptr)
            if ins.ty.k == "ptr": w = 64
            else: w = e.width(ins.ty)
            va = Var(ins.dst, v, w, isptr)
            # does the back-edge increment carry nsw?
            for val, p in ins.a:
                if p in s.body and val.k == "local":
                    d = s.find_def(val.v)
                    if d is not None and d.op in ("add", "sub") and "nsw" in d.x: va.nsw = True
                    if d is not None and d.op == "add" and (e.arrays or e.guess) and ins.ty.k == "int" and ins.ty.n == 64: s.guess(va, d)
            s.vars.append(va)
    def guess(s, va, d):
        """a counter by the look of it (learn() decides)"""
        x, y = d.a[0], d.a[1]
        if x.k == "local" and x.v == va.key and y.k == "const": va.kind, va.c = "affine", y.v & mask(64)
    def find_def(s, name):
        for b in s.body:
            for i in s.fn.blocks[b]:
                if i.dst == name: return i
    def vkey(s, va): return va.key if isinstance(va.key, str) else "cell_%d_%s" % (va.key[0], str(va.key[1])[:40])
    def cur(s, va, t):
        """value of the variable at iteration t under the current hypothesis"""
        if va.kind == "inv": return va.init
        if va.kind == "affine":
            ct = S.binop("mul", t, va.c if isc(va.c) else va.c, 64) if isc(va.c) else S.binop("mul", t, va.c, 64)
            if va.isptr: return Ptr(va.init.r, norm(S.binop("add", va.init.o, ct, 64)))
            if va.w == 64: return norm(S.binop("add", va.init, ct, 64))
            wide = S.sext(va.init, va.w, 64)
            full = norm(S.binop("add", wide, ct, 64))
            r = S.trunc(full, 64, va.w)
            if va.w == 32 and va.nsw and not isc(r): S.NARROW[r.get_id()] = (r, full)
            return r
        # unknown / general: uninterpreted function of the counters
        if va.fn is None:
            nm = "acc!%d!%s" % (s.id, s.vkey(va))
            va.fn = z3.Function(nm, *([z3.BitVecSort(64)] * (len(s.outer) + 1) + [z3.BoolSort() if va.w == 1 else z3.BitVecSort(va.w)]))
        a = va.fn(*s.outer, S.bv(t, 64))
        return Ptr(va.init.r, a) if va.isptr else a
    def at_t(s, x): return subst(x, [(s.t, s.u)])
    def prevB(s, t):
        return subst(s.B, [(s.t, S.binop("sub", t, 1, 64))])
    def execute(s):
        e = s.e
        if not hasattr(s, "n0"): s.n0 = s.nmax = e.nfresh
        s.nmax = max(s.nmax, e.nfresh); e.nfresh = s.n0     # every pass names the unknowns of an iteration alike: the summary speaks of them
        try: return s.execute1()
        finally: e.nfresh = s.nmax = max(s.nmax, e.nfresh)
    def execute1(s):
        e = s.e
        st = s.st0.copy(); regs = dict(s.regs_in)
        t = s.t
        st.assume(S.icmp("sge", t, 0, 64)); st.assume(S.icmp("slt", t, TMAX, 64))
        # memory: loop entries with T = t
        for rid, ents in s.entries.items():
            for en in ents: st.mem[rid] = (s.inst_entry(en, t), st.mem.get(rid))
        for va in s.vars:
            v = s.cur(va, t)
            if isinstance(va.key, str): regs[va.key] = v
            else:
                rid, off, n = va.key
                st.mem[rid] = (W(off, n, v), st.mem.get(rid))
        s.base_nodes = dict(st.mem)
        lean = e.lean and not s.outer     # the contract's invariants say all there is to know about earlier iterations
        if s.B is not None and not lean:
            st.assume(Or(S.icmp("eq", t, 0, 64), s.prevB(t)))
            if not e.arrays: st.facts.append(Fact(s.u, 0, t, s.at_t(s.B)))
        for va in s.vars:
            if va.kind == "general" and va.step is not None and not lean:
                tm = S.binop("sub", t, 1, 64)
                cv = s.cur(va, t); iv = va.init
                if va.isptr: cv, iv = cv.o, iv.o
                st.assume(Implies(S.icmp("eq", t, 0, 64), s.veq(cv, iv, va.w)))
                st.assume(Or(S.icmp("eq", t, 0, 64), s.veq(cv, subst(va.step, [(s.t, tm)]), va.w)))
        for c in s.inv: st.assume(c)
        for rid, ents in s.entries.items():
            for en in ents:
                if isinstance(en, A) and en.tm.hint: st.assume(en.tm.hint(t))
        s.npc = len(st.pc)
        s.start = st
        s.mark = next(Region._n)
        return e.region_exec(s.fn, [(st.copy(), regs, s.H, None, None)], s.body, s.H)
    def veq(s, a, b, w):
        if w == 1: return Not(S.binop("xor", a, b, 1))
        return S.icmp("eq", a, b, w)
    def inst_entry(s, en, T):
        if isinstance(en, L): return L(en.u, T, en.a, en.stride, en.n, en.val, en.guard)
        if isinstance(en, A): return L(en.u, en.tm.count, en.tm.lo, en.tm.w, en.tm.w, subst(en.val, [(s.t, T)]), subst(en.guard, [(s.t, T)]))
        if isinstance(en, G): return G(en.u, T, en.off, en.n, en.val, en.guard, en.loop)
        return en
    def pathcond(s, st): return And(*st.pc[s.npc:])
    def merge(s, back, get, w):
        vals = [(s.pathcond(o[1]), get(o)) for o in back]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            if isinstance(r, Ptr) or isinstance(v, Ptr):
                if not (isinstance(r, Ptr) and isinstance(v, Ptr)): raise Unsupported("loop variable mixes pointers and integers")
                if r.r is not v.r: raise Unsupported("loop-carried pointer changes object in " + s.fn.name)
                r = r if same(r, v) else Ptr(r.r, If(c, v.o, r.o, 64))
            else: r = r if same(r, v) else If(c, v, r, w)
        return r
    # -- learning
    def learn(s, outs):
        e = s.e
        back = [o for o in outs if o[0] == "edge" and o[3] == s.H]
        if not back:
            s.B = False; s.entries = {}
            return "noback"
        phis = {i.dst: i for i in s.fn.blocks[s.H] if i.op == "phi"}
        nxt = []
        for o in back:
            rg = dict(o[2]); 
            e.phis(s.fn, o[1], rg, s.H, o[4]); nxt.append(rg)
        idx = {id(o): k for k, o in enumerate(back)}
        s.B = Or(*[s.pathcond(o[1]) for o in back])
        tid = {s.t.get_id()}
        sig = []
        # writes
        ents, cells = s.collect_writes(back)
        for key, (r, off, n) in cells.items():
            if key not in s.cells:
                try: init = e.read(s.st0, r, off, n)
                except Unsupported: init = e.fresh_const("uninit", 8 * n)
                va = Var((r.id, off, n), init, 8 * n, isinstance(init, Ptr)); va.region = r
                s.cells[key] = va; s.vars.append(va)
        s.entries = ents
        kinds0 = [va.kind for va in s.vars]
        for va in s.vars:
            if isinstance(va.key, str): get = lambda o: nxt[idx[id(o)]][va.key]
            else:
                rid, off, n = va.key
                get = lambda o: e.read(o[1], va.region, off, n)
            vs = [get(o) for o in back]
            if va.isptr or any(isinstance(v, Ptr) for v in vs):
                if isinstance(va.init, Ptr) and all(same(v, va.init) for v in vs): 
                    va.isptr = True; va.kind = "inv"; sig.append((s.vkey(va), "inv")); continue
                cv = s.cur(va, s.t)
                if isinstance(cv, Ptr) and all(same(v, cv) for v in vs): va.kind = "inv"; sig.append((s.vkey(va), "inv")); continue
                if not all(isinstance(v, Ptr) for v in vs) or not isinstance(va.init, Ptr): raise Unsupported("pointer variable %s in %s" % (s.vkey(va), s.fn.name))
                if any(v.r is not va.init.r for v in vs): raise Unsupported("loop-carried pointer %s changes object in %s" % (s.vkey(va), s.fn.name))
                va.isptr = True
                c0 = s.cur(va, s.t).o; vso = [v.o for v in vs]
            else: c0 = s.cur(va, s.t); vso = vs
            # step forms
            kind = None
            if all(same(v, c0) for v in vso): kind = ("inv", None)
            elif va.w == 64 or va.isptr or (va.w in (8, 16, 32)):
                if va.kind in ("unknown", "affine") :
                    ds = []
                    for v in vso:
                        if va.isptr or va.w == 64: l = ldiff(v, c0); dd = unlin(l)
                        else:
                            l = ldiff(v, c0, va.w); dd = unlin(l, va.w)
                        ds.append(dd)
                    d0 = ds[0]
                    if all(same(d, d0) for d in ds) and (isc(d0) or (not mentions(d0, tid) and va.w == 64)) and not (isc(d0) and d0 == 0):
                        if va.w < 64 and not va.isptr: 
                            if va.w == 32: d0 = sgn(d0, 32) & mask(64)
                            elif isc(d0): d0 = sgn(d0, va.w) & mask(64)
                        kind = ("affine", d0)
            if kind is None: kind = ("general", None)
            if va.kind == "general" and kind[0] == "affine": kind = ("general", None)
            if va.kind == "general" and kind[0] == "inv": kind = ("inv", None) if False else ("general", None)
            va.kind, va.c = kind
            if va.kind == "general":
                va.step = s.merge(back, lambda o: get(o), va.w)
                if va.isptr: va.step = va.step.o
                sig.append((s.vkey(va), "gen", str_id(va.step)))
            else: sig.append((s.vkey(va), va.kind, str_id(va.c)))
        if any(a == "unknown" and va.kind in ("affine", "inv") for a, va in zip(kinds0, s.vars)): s.entries = ents = {}; sig.append("stale")   # templates mention a variable by its old name
        for rid in sorted(ents):
            for en in ents[rid]:
                if isinstance(en, L): sig.append((rid, "L", str_id(en.a), en.stride, en.n, str_id(en.val), str_id(en.guard)))
                elif isinstance(en, A): sig.append((rid, "A", en.tm.name))
                elif isinstance(en, G): sig.append((rid, "G", str_id(en.off), en.n, str_id(en.val), str_id(en.guard)))
                else: sig.append((rid, "H"))
        sig.append(str_id(s.B))
        return tuple(sig)
    def collect_writes(s, back):
        e = s.e; ents = {}; cells = {}; tid = {s.t.get_id()}
        idx_const = lambda x: not mentions(x, tid)
        for o in back:
            st = o[1]; guard = s.pathcond(st)
            for rid, node in st.mem.items():
                base = s.base_nodes.get(rid)
                if node is base: continue
                new = []
                while node is not None and node is not base:
                    new.append(node[0]); node = node[1]
                if node is not base: raise Unsupported("memory history")
                new.reverse()
                if rid > s.mark: continue          # object created in this iteration
                if s.template(rid): continue
                for en in new:
                    if isinstance(en, W):
                        off = en.off
                        if idx_const(off):
                            key = (rid, off if isc(off) else ("z", off.get_id()), en.n)
                            cells[key] = (s.lookup_region(rid), off, en.n)
                            continue
                        d, c = lin(off); f = d.get(s.t.get_id())
                        ok = False
                        if f is not None:
                            rest = {k: v for k, v in d.items() if k != s.t.get_id()}
                            a = unlin((rest, c))
                            if idx_const(a): ok = True
                        if ok:
                            stride = sgn(f[1], 64)
                            if abs(stride) < en.n: ok = False
                            else: ents.setdefault(rid, []).append(L(s.u, None, a, stride, en.n, s.at_t(en.val), s.at_t(guard)))
                        if not ok:
                            ents.setdefault(rid, []).append(G(s.u, None, s.at_t(off), en.n, s.at_t(en.val), s.at_t(guard), s))
                    else:
                        ents.setdefault(rid, []).append(s.hav(rid))
        s.try_templates(back, ents)
        # merge duplicates: identical location templates from different paths -> one guarded value
        for rid, l in ents.items():
            out = []
            for en in l:
                if isinstance(en, L):
                    for q in out:
                        if isinstance(q, L) and same(q.a, en.a) and q.stride == en.stride and q.n == en.n:
                            if (isinstance(q.val, Ptr) or isinstance(en.val, Ptr)) and not same(q.val, en.val): continue      # kept as two guarded entries
                            # paths are disjoint unless it is the same path writing twice (later wins)
                            q.val = q.val if same(q.val, en.val) else If(en.guard, en.val, q.val, 8 * en.n)
                            q.guard = s.simp(Or(q.guard, en.guard)); break
                    else: out.append(en)
                elif isinstance(en, (H, A)):
                    out = [en]; break
                else: out.append(en)
            # several interleaved L entries in one region must be provably disjoint or of identical stride with distinct residues
            ents[rid] = out
            s.check_disjoint(rid, out)
        return ents, cells
    # -- array invariants
    def template(s, rid):
        e = s.e
        if rid not in s.tmpl:
            r = s.lookup_region(rid); l = [x for f in e.arrays for x in f(e, s, r)] if e.arrays else []
            s.tmpl[rid] = [x for x in l if s.array_base(r, x, e.implied)]
        return s.tmpl[rid]
    def aread(s, st, r, x, j): return s.e.read(st, r, norm(S.binop("add", S.binop("mul", j, x.w, 64), x.lo, 64)), x.w)
    def array_goal(s, st, r, x, t, j, pre):
        """in st element j is as the invariant says for t iterations"""
        st.assume(S.icmp("sge", j, 0, 64)); st.assume(S.icmp("slt", j, x.count, 64))
        g = x.guard(j, t); v = x.val(j, t); c = s.aread(st, r, x, j)
        if isinstance(v, Ptr) or isinstance(c, Ptr): return False
        if g is True: return S.icmp("eq", c, v, 8 * x.w)
        return S.icmp("eq", c, If(g, v, s.aread(pre, r, x, j), 8 * x.w), 8 * x.w)
    def array_base(s, r, x, ask):
        st = s.st0.copy(); j = s.e.fresh_const("j")
        try: g = s.array_goal(st, r, x, 0, j, st)
        except (Fork, Unsupported): g = False
        return ask(st, g)
    def array_step(s, o, r, x, ask):
        e = s.e; node, base = o[1].mem.get(r.id), s.base_nodes.get(r.id)
        while node is not base:
            en = node[0]
            if not isinstance(en, W) or en.n != x.w: return ask(o[1], False)
            d = norm(S.binop("sub", en.off, x.lo, 64)); dd, c = lin(d)
            if any(sgn(f, 64) % x.w for _, f in dd.values()) or c % x.w: return ask(o[1], False)
            if not ask(o[1], And(S.icmp("sge", d, 0, 64), S.icmp("slt", d, S.binop("mul", x.count, x.w, 64), 64))): return False
            node = node[1]
        st = o[1].copy(); pre = s.st0.copy(); pre.pc = st.pc; pre.facts = st.facts; j = e.fresh_const("j")
        try: g = s.array_goal(st, r, x, norm(S.binop("add", s.t, 1, 64)), j, pre)
        except (Fork, Unsupported): return ask(o[1], False)
        return ask(st, g)
    def try_templates(s, back, ents):
        """regions in the order the contract's candidates ask for; a region whose invariant fails moves to its next candidate"""
        e = s.e; failed = None
        for rid in sorted((k for k, l in s.tmpl.items() if l), key=lambda k: (s.tmpl[k][0].prio, k)):
            x = s.tmpl[rid][0]; r = s.lookup_region(rid)
            have = s.entries.get(rid)
            if have and isinstance(have[0], A) and have[0].tm is x and (failed is None or x.prio <= failed):
                if not all(s.array_step(o, r, x, lambda st, g: e.implied(st, g, 8000)) for o in back):
                    failed = x.prio; s.tmpl[rid] = s.tmpl[rid][1:]
                    if not s.tmpl[rid]: continue
                    x = s.tmpl[rid][0]
            ents[rid] = [A(x, z3.BitVec("j!%d_%d" % (s.id, rid), 64), None, None)]
            a = ents[rid][0]; a.val = x.val(a.u, s.t); a.guard = x.guard(a.u, s.t)
    def simp(s, c):
        x = conc(z3.simplify(c)) if not isc(c) else c
        return x if isc(x) else c
    def check_disjoint(s, rid, ents):
        """L entries are applied per iteration; summarising them one after the other is only right if entries of different iterations do
        not overlap across templates"""
        ls = [x for x in ents if isinstance(x, L)]
        gs = [x for x in ents if isinstance(x, G)]
        if gs and (ls or len(gs) > 1): s.entries_havoc(rid, ents); return
        for i in range(len(ls)):
            for j in range(i):
                a, b = ls[i], ls[j]
                d = ldiff(a.a, b.a)
                ok = same(a.a, b.a) and a.stride == b.stride and a.n == b.n and abs(a.stride) >= a.n
                if not ok and a.stride == b.stride and not d[0]:
                    r = sgn(d[1], 64) % abs(a.stride)
                    if r >= b.n and r + a.n <= abs(a.stride): ok = True
                if not ok:
                    u1, u2 = s.e.fresh_const("i"), s.e.fresh_const("j")
                    st = s.st0.copy()
                    for u in (u1, u2): st.assume(S.icmp("sge", u, 0, 64)); st.assume(S.icmp("slt", u, TMAX, 64))
                    st.assume(subst(a.guard, [(s.u, u1)])); st.assume(subst(b.guard, [(s.u, u2)]))
                    o1 = S.binop("add", a.a, S.binop("mul", u1, a.stride & mask(64), 64), 64); o2 = S.binop("add", b.a, S.binop("mul", u2, b.stride & mask(64), 64), 64)
                    st.inst = [u1, u2]
                    dd = S.binop("sub", o1, o2, 64)
                    ok = s.e.implied(st, Or(S.icmp("sge", dd, b.n, 64), S.icmp("sle", dd, (-a.n) & mask(64), 64)))
                if not ok: s.entries_havoc(rid, ents); return
    def entries_havoc(s, rid, ents): ents[:] = [s.hav(rid)]
    def hav(s, rid):
        """an unsummarised write: the region becomes unknown, from the offset the contract says loops stay above (proved in verify_steps)"""
        return H(s.e.keep.get(s.lookup_region(rid).name, 0), None, "loop%d_%d" % (s.id, rid))
    def region_of(s, rid): return s.lookup_region(rid, False)
    def lookup_region(s, rid, must=True):
        r = REG.get(rid)
        if r is None and must: raise Unsupported("region")
        return r
    def is_mono(s, va):
        if s.e.nogen: return False
        m = getattr(va, "mono", None)
        if m is None:
            st2 = s.start.copy(); st2.assume(s.B)
            m = va.mono = s.e.implied(st2, S.icmp("sge", va.step, s.cur(va, s.t), 64))
        return m
    def monotone_lemmas(s, e, st, a, b):
        """for every general integer variable whose step is >= its value (proved at a generic iteration): a<=b<=T -> acc(a) <= acc(b)"""
        out = []
        for va in s.vars:
            if va.kind != "general" or va.w != 64 or va.isptr: continue
            if s.is_mono(va):
                out.append(Implies(S.icmp("sle", a, b, 64), S.icmp("sle", s.cur(va, S.bv(a, 64)), s.cur(va, S.bv(b, 64)), 64)))
        return out
    # -- invariants
    def houdini(s, outs):
        e = s.e
        gen = [va for va in s.vars if va.kind == "general" and not va.isptr and va.w in (32, 64)]
        genp = [va for va in s.vars if va.kind == "general" and va.isptr]
        if not gen and not genp and not any(getattr(f, "affine", False) for f in e.invs) or s.B is False: return
        t = s.t; cands = []
        for va in gen + genp if not e.nogen else []:
            cv = s.cur(va, t); iv = va.init
            if va.isptr: cv, iv, w = cv.o, iv.o, 64
            else: w = va.w
            if w == 64:
                cands.append(S.icmp("sge", cv, iv, w)); cands.append(S.icmp("sle", cv, iv, w))
                cands.append(S.icmp("sle", S.binop("sub", cv, iv, 64), t, 64))
                cands.append(S.icmp("sge", S.binop("sub", cv, iv, 64), S.binop("sub", 0, t, 64), 64))
            cands.append(S.icmp("sge", cv, 0, w))
            cands.append(S.icmp("sgt", cv, 0, w))
            for x in (8, 16):
                if w == 64: cands.append(S.icmp("sle", S.binop("sub", cv, iv, 64), S.binop("mul", t, x, 64), 64))
        for i, va in enumerate(gen):
            for vb in gen[:i]:
                if va.w == vb.w and not e.nogen:
                    cands.append(S.icmp("sle", s.cur(va, t), s.cur(vb, t), va.w)); cands.append(S.icmp("sge", s.cur(va, t), s.cur(vb, t), va.w))
        aff = [va for va in s.vars if va.kind == "affine" and not va.isptr and va.w == 64]
        for va in gen:
            for vb in aff:
                if va.w == vb.w and not e.nogen:
                    cands.append(S.icmp("sle", s.cur(va, t), s.cur(vb, t), va.w)); cands.append(S.icmp("sge", s.cur(va, t), s.cur(vb, t), va.w))
        # the same recurrence as an accumulator of an earlier loop
        for rec in s.st0.loops:
            for vb in rec.vars:
                if vb.kind == "general" and not vb.isptr:
                    for va in gen:
                        if va.w == vb.w and rec.sm.fn is s.fn and len(rec.sm.outer) == len(s.outer): cands.append(S.icmp("eq", s.cur(va, t), rec.sm.cur(vb, t), va.w))
        for s.stage in range(max([1] + [getattr(f, "stages", 1) for f in e.invs])):
            own = [c for f in e.invs if s.stage < getattr(f, "stages", 1) for c in f(e, s, t)]
            s.inductive([c for c in (cands if s.stage == 0 else s.inv) + own if not isc(c)])
    def inductive(s, cands):
        """the largest subset of the candidates that holds at the start and is kept by every iteration"""
        e = s.e; t = s.t
        # base
        sub0 = [(t, 0)]
        st = s.st0.copy()
        acc0 = []
        for va in s.vars:
            if va.kind == "general":
                cv = s.cur(va, 0); iv = va.init
                if va.isptr: cv, iv = cv.o, iv.o
                acc0.append(s.veq(cv, iv, va.w))
        for c in acc0: st.assume(c)
        st.pc = st.pc
        cands = [c for c in cands if e.implied(st, subst(c, sub0), 1500)]
        nxt = norm(S.binop("add", t, 1, 64))
        s.holding = True
        if any(getattr(f, "nested", False) for f in e.invs) and not s.outer: return s.houdini_paths(cands, nxt)
        while cands:
            st = s.start.copy()
            st.pc = list(st.pc)
            for c in cands: st.assume(c)
            st.assume(s.B)
            for va in s.vars:
                if va.kind == "general":
                    cv = s.cur(va, nxt); 
                    if va.isptr: cv = cv.o
                    st.assume(s.veq(cv, va.step, va.w))
            keep = [c for c in cands if e.implied(st, subst(c, [(t, nxt)]), 1500)]
            if len(keep) == len(cands): break
            cands = keep
        s.inv = cands
    def houdini_paths(s, cands, nxt):
        """as above, checked on every path through the body: the invariants of the loops inside are at hand"""
        e = s.e
        while cands:
            s.inv = list(cands)
            e.quiet += 1
            try: outs = s.execute()
            finally: e.quiet -= 1
            bad = set()
            for o in outs:
                if not (o[0] == "edge" and o[3] == s.H): continue
                st = o[1].copy(); rg = dict(o[2]); e.phis(s.fn, st, rg, s.H, o[4])
                for va in s.vars:
                    if va.kind != "general": continue
                    v = rg[va.key] if isinstance(va.key, str) else e.read(st, va.region, va.key[1], va.key[2])
                    cv = s.cur(va, nxt)
                    if va.isptr: cv, v = cv.o, v.o
                    st.assume(s.veq(cv, v, va.w))
                if e.tracehou: e.tracehou(s, st, cands)
                for k, c in enumerate(cands):
                    if k not in bad and not e.implied(st, subst(c, [(s.t, nxt)]), 1500): bad.add(k)
            if not bad: break
            cands = [c for k, c in enumerate(cands) if k not in bad]
        s.inv = cands
    def verify_steps(s, back):
        """the writes of an iteration stay at or above the offset from which the region was declared unknown"""
        e = s.e
        ask = lambda st, g: (e.check(st, g, "loop:array"), True)[1]
        for rid, ents in s.entries.items():
            if isinstance(ents[0], A):
                r = s.lookup_region(rid); s.array_base(r, ents[0].tm, ask)
                for o in back: s.array_step(o, r, ents[0].tm, ask)
        for rid, ents in s.entries.items():
            lo = e.keep.get(s.lookup_region(rid).name, 0)
            if not lo or not any(isinstance(x, H) for x in ents): continue
            for o in back:
                node, base = o[1].mem.get(rid), s.base_nodes.get(rid)
                while node is not base:
                    en = node[0]; off = en.off if isinstance(en, W) else en.dst if isinstance(en, (C, F)) else en.lo if isinstance(en, H) else None
                    e.check(o[1], False if off is None else S.icmp("sge", off, lo, 64), "loop:keeps")
                    node = node[1]
    # -- exits
    def exits(s, outs):
        e = s.e; res = []
        cands = [c for f in e.ends for c in f(e, s)]
        for o in outs:
            if o[0] == "edge" and o[3] == s.H: continue
            T = e.fresh("T", 64)
            r = s.exit_at(o, T)
            if cands and e.feasible(r[1]):
                # the number of iterations is a term the contract named: say so
                for c in cands:
                    if e.implied(r[1], S.icmp("eq", T, c, 64)): r = s.exit_at(o, c); break
            res.append(r)
        return res
    def exit_at(s, o, T):
        e = s.e
        m = [(s.t, T)]
        res = []
        rec = LoopRec(); rec.u, rec.T, rec.B, rec.fn, rec.header = s.u, T, s.at_t(s.B) if s.B is not None else False, s.fn.name, s.H
        rec.vars = list(s.vars); rec.sm = s
        for o in [o]:
            st = o[1].copy()
            st.pc = [c for c in st.pc[:s.npc_base()]] + [subst(c, m) for c in st.pc[s.npc_base():]]
            # replace in memory: entries created since loop start
            for rid, node in list(st.mem.items()):
                b0 = s.st0.mem.get(rid)
                new = []
                n = node
                while n is not None and n is not b0: new.append(n[0]); n = n[1]
                if n is not b0 and b0 is not None: raise Unsupported("memory history")
                cur = b0
                for en in reversed(new): cur = (sub_entry(en, m), cur)
                st.mem[rid] = cur
            st.facts = [Fact(f.u, subst(f.lo, m), subst(f.hi, m), subst(f.body, m)) if (mentions(f.hi, {s.t.get_id()}) or mentions(f.body, {s.t.get_id()})) else f for f in st.facts]
            # recurrences of general variables
            for va in s.vars:
                if va.kind == "general" and not (e.lean and not s.outer):
                    u1 = norm(S.binop("add", s.u, 1, 64)); cv = s.cur(va, u1); c0 = s.cur(va, 0); iv = va.init
                    if va.isptr: cv, c0, iv = cv.o, c0.o, iv.o
                    body = s.veq(cv, s.at_t(va.step), va.w)
                    st.facts.append(Fact(s.u, 0, T, body)); st.assume(s.veq(c0, iv, va.w))
            for c in s.inv:
                st.facts.append(Fact(s.u, 0, norm(S.binop("add", T, 1, 64)), s.at_t(c)))
            for va in s.vars:
                # an accumulator that never decreases: every earlier value is at most the last one
                if va.kind == "general" and not va.isptr and va.w == 64 and s.is_mono(va):
                    st.facts.append(Fact(s.u, 0, norm(S.binop("add", T, 1, 64)), S.icmp("sle", s.cur(va, s.u), s.cur(va, T), 64)))
            st.loops = st.loops + [rec]
            st.ghost = {k: subst(v, m) if isinstance(v, (Ptr, tuple)) or (v is not None and z3.is_expr(v)) else v for k, v in st.ghost.items()}
            if o[0] == "ret": res.append(("ret", st, subst(o[2], m)))
            else: res.append(("edge", st, {k: subst(v, m) for k, v in o[2].items()}, o[3], o[4]))
        return res[0]
    def npc_base(s): return len(s.st0.pc)

REG = {}
_oi = Region.__init__
def _ri(self, *a, **k): _oi(self, *a, **k); REG[self.id] = self
Region.__init__ = _ri

def sub_entry(en, m):
    if isinstance(en, W): return W(subst(en.off, m), en.n, subst(en.val, m))
    if isinstance(en, L): return L(en.u, subst(en.T, m), subst(en.a, m), en.stride, en.n, subst(en.val, m), subst(en.guard, m))
    if isinstance(en, G): return G(en.u, subst(en.T, m), subst(en.off, m), en.n, subst(en.val, m), subst(en.guard, m), en.loop)
    if isinstance(en, C): return C(subst(en.dst, m), subst(en.len, m), en.r, en.node, subst(en.src, m))
    if isinstance(en, F): return F(subst(en.dst, m), subst(en.len, m), subst(en.byte, m))
    if isinstance(en, H): return H(subst(en.lo, m), subst(en.len, m), en.tag, en.arr)
    raise Unsupported("entry")

def str_id(x):
    if isinstance(x, Ptr): return ("P", x.r.id if x.r else None, str_id(x.o))
    if isinstance(x, tuple): return tuple(str_id(y) for y in x)
    if isc(x) or x is None: return x
    return ("z", x.get_id(), KEEP.setdefault(x.get_id(), x) is not None)
KEEP = {}
