"""C07: and / or / not on booleans: kernels on a sub-range, the drivers ray_and / ray_or (0 to 3 operands), ray_not."""
from spec import *
import sym as S
from contract import Inst, CODE, WIDTH, LIM, Obj
from engine import Ptr, Region, Init
import contracts.c09 as P
def tr(v): return S.icmp("ne", v, 0, 8)
def truth(op, a, b): return If(And(tr(a), tr(b)) if op == "and" else Or(tr(a), tr(b)), 1, 0, 8)
def kernel(op, vec):
    """op_partial(x, y, n, offset, vec): x[i] = x[i] op y[i] (vec) or x[i] op *y, for offset <= i < offset+n"""
    def setup(B):
        N = B.int("N", 64, 0, LIM); off = B.int("off", 64, 0, N); n = B.int("n", 64, 0, N)
        B.assume(S.icmp("sle", add(off, n, 64), N, 64))
        x = B.vec("x", "B8", N, writable=True)
        y = B.vec("y", "B8", N) if vec else B.atom("y", "B8")
        B.h = (x, y, N, off, n)
        d = 16 if vec else 8
        return [x.p + 16, y.p + d, n, off, 1 if vec else 0] if B.native else [x.p.add(16), y.p.add(d), n, off, 1 if vec else 0]
    def post(V, r):
        x, y, N, off, n = V.B.h
        hi = S.norm(add(off, n, 64))
        V.check("no error", V.isnullobj(r))
        V.forall("value", off, hi, lambda k: V.check("combined", eq(V.el(x.p, k, 1), truth(op, x.at(k), y.at(k) if vec else y.v), 8)))
        V.forall("before", 0, off, lambda k: V.check("untouched", eq(V.el(x.p, k, 1), x.at(k), 8)))
        V.forall("after", hi, N, lambda k: V.check("untouched", eq(V.el(x.p, k, 1), x.at(k), 8)))
    return Inst("%s_op_partial(%s)" % (op, "vector" if vec else "atom"), "%s_op_partial" % op, setup, post, module="logic")
def not_(atom):
    def setup(B):
        if atom: x = B.atom("x", "B8")
        else: x = B.vec("x", "B8", B.int("N", 64, 0, LIM))
        B.h = x; return [x]
    def post(V, r):
        x = V.B.h; inv = lambda v: If(tr(v), 0, 1, 8)
        if atom: V.check("type", eq(V.typ(r), (-CODE["B8"]) & 0xff, 8)); V.check("value", eq(V.av(r, 1), inv(x.v), 8)); return
        V.check("type", eq(V.typ(r), CODE["B8"], 8)); V.check("length", eq(V.len(r), x.n, 64))
        V.forall("value", 0, x.n, lambda k: V.check("negated", eq(V.el(r, k, 1), inv(x.at(k)), 8)))
    return Inst("ray_not(%s)" % ("-B8" if atom else "B8"), "ray_not", setup, post, module="order")
def driver(op, kinds):
    """ray_and/ray_or on operands of the given kinds (v: vector, a: atom)"""
    n = len(kinds); nm = "ray_%s(%s)" % (op, ",".join({"v": "B8", "a": "-B8"}[k] for k in kinds) or "no operand")
    hold = {}
    res = "v" if "v" in kinds else "a"
    def setup(B):
        if B.native:
            L = B.int("L", 64, 0, LIM)
            if B.rng.random() < 0.4: L = B.rng.randint(16384, 60000); B.log.append(("L", L))
            xs = []
            for i, k in enumerate(kinds):
                if k == "v" and L > 4000:
                    h = P.big(B, "B8", L); import ctypes as C
                    vals = bytes(B.rng.choice((0, 1)) for _ in range(64)) * (L // 64 + 1)
                    C.memmove(h.p + 16, vals[:L], L); h.arr = lambda i, v=vals: v[i]; h.n = L
                    (C.c_int32).from_address(h.p + 4).value = 1 << 20
                    B.keep = [k for k in B.keep if k is not h] + [h]
                else: h = B.vec("x%d" % i, "B8", L) if k == "v" else B.atom("x%d" % i, "B8")
                xs.append(h)
            B.h = (xs, L)
            arr = B.struct("operands", max(8 * n, 8), {8 * i: (8, x) for i, x in enumerate(xs)}, writable=False)
            return [arr, n]
        L = B.int("L", 64, 0, LIM); B.st_n = B.int("execs", 64, 1, P.NMAX)
        xs = [P.header(B, "x%d" % i, "B8", L, rc=1) if k == "v" else B.atom("x%d" % i, "B8") for i, k in enumerate(kinds)]
        for x, k in zip(xs, kinds): x.kind = k
        own = {}
        ker = "%s_op_partial" % op
        def cur_ops(st):
            """operands of the current step: (accumulated result, next operand)"""
            i = st.ghost.get("evals", 0) - 1
            acc = st.ghost["acc"]; nx = xs[i]
            if acc[1] == "a" and nx.kind == "v": return (nx.p.r, "v"), (acc[0], "a")
            return acc, (nx.p.r, nx.kind)
        def operand(e, st, i, v, off):
            (ar, ak), (br, bk) = cur_ops(st)
            if i == 4: return eq(P.asint(v), 1 if (ak, bk) != ("v", "a") else 0, 64)
            tgt, k = ((ar, ak), (br, bk))[i]
            if i == 0:
                o = st.ghost.get("owned")
                if o is None or o[0] is not tgt: return False
                tgt = o[1]
            return isinstance(v, Ptr) and v.r is tgt and eq(v.o, 16 if k == "v" else 8, 64)
        f = B.fn(ker); sp = P.Split(f, 5, 2, 3, L, operand); sp.setup(B); sp.thresh = P.const(B, "rayvc_thresh")
        def cur_len(e, st):
            (ar, ak), _ = cur_ops(st)
            return L if ak == "v" else 1
        sp.len = cur_len
        cs = sp.contracts()
        def kern(e, st, a, ins):
            sp.direct(e, st, list(a), ker + ":"); return [(st, e.glob(e.w.mod("rayforce"), "__NULL_OBJ"))]
        cs[ker] = kern
        arr = B.struct("operands", 8 * n, {8 * i: (8, x.p) for i, x in enumerate(xs)}, writable=False) if n else B.struct("operands", 8, {})
        def ev(e, st, a, ins):
            """eval(x): the value of x (a boolean atom or vector)"""
            i = st.ghost.get("evals", 0)
            e.check(st, i < n and isinstance(a[0], Ptr) and a[0].r is xs[i].p.r, "eval:operands in order")
            if i >= 1:
                e.check(st, st.ghost.get("ran", 0) == i - 1, "eval:previous operand combined")
                if i >= 2: st.ghost["acc"] = (st.ghost["owned"][1], "v" if "v" in kinds[:i] else "a")
            if i == 0: st.ghost["acc"] = (xs[0].p.r, kinds[0])
            st.ghost["evals"] = i + 1; st.ghost["owned"] = None
            return [(st, xs[i].p)]
        def logic_own(e, st, a, ins):
            """logic_own(x): x itself if nobody else holds it, or a copy equal to x"""
            e.nfresh += 1; o = a[0].r
            def lazy(e, s2, off, k, o=o): return None
            p = Region("own%d" % e.nfresh, None, Init({2: (1, e.read(st, o, 2, 1)), 0: (1, 0xff), 8: (8, e.read(st, o, 8, 8))}), "obj", writable=True)
            st.ghost["owned"] = (o, p)
            return [(st, Ptr(p, 0))]
        cs["eval"] = ev; cs["logic_own"] = logic_own
        B.e.contracts.update(cs); B.e.global_init["__RUNTIME"] = P.runtime_global(sp); hold["sp"] = sp
        B.h = (xs, L)
        return [arr, n]
    def post(V, r):
        xs, L = V.B.h
        if n == 0: V.check("a boolean", Or(eq(V.typ(r), CODE["B8"], 8), eq(V.typ(r), (-CODE["B8"]) & 0xff, 8))); return
        if V.native:
            val = lambda i, k: xs[i].at(k) if kinds[i] == "v" else xs[i].v
            def want(k):
                a = val(0, k)
                for i in range(1, n): a = truth(op, a, val(i, k))
                return a
            V.check("type", V.typ(r) == (CODE["B8"] if res == "v" else -CODE["B8"]) & 0xff)
            if res == "v": V.check("length", V.len(r) == L)
            for k in (range(L) if res == "v" else [0]):
                if (V.el(r, k, 1) if res == "v" else V.av(r, 1)) != want(k): V.check("element %d" % k, False); break
            return
        st = V.st
        if V.iserr(r): V.check("an error only from the pool", st.ghost.get("poolerr", False)); return
        V.check("every operand evaluated once", st.ghost.get("evals", 0) == n)
        V.check("every operand combined", st.ghost.get("ran", 0) == n - 1)
        o = st.ghost.get("owned")
        V.check("returns the combined value", isinstance(r, Ptr) and r.r is (o[1] if n > 1 and o else xs[0].p.r))
    lim = dict(unroll={"logic_map": ("outer", n + 1)}, invs=[P.inv_cursor(hold)])
    return Inst(nm, "ray_" + op, setup, post, module="logic", opts=lim, nat=dict(cores=[1, 2, 3, 5, 8], guard=False))
extra = P.extra
def instances(tier="quick"):
    out = []
    for op in ("and", "or"):
        out += [kernel(op, True), kernel(op, False)]
        for k in ("", "v", "a", "aa", "av", "va", "vv", "vva", "avv", "aaa", "vav"): out.append(driver(op, k))
    return out + [not_(True), not_(False)]
