"""Textual LLVM-IR reader (opaque pointers, LLVM 18) -- functions are parsed lazily."""
import re, struct

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elt", "fields", "packed", "name")
    def __init__(s, k, n=0, elt=None, fields=None, packed=False, name=None):
        s.k, s.n, s.elt, s.fields, s.packed, s.name = k, n, elt, fields, packed, name
    def __repr__(s):
        return {"int": lambda: "i%d" % s.n, "arr": lambda: "[%d x %r]" % (s.n, s.elt),
                "vec": lambda: "<%d x %r>" % (s.n, s.elt),
                "struct": lambda: "{%s}" % ",".join(map(repr, s.fields or [])),
                "named": lambda: s.name}.get(s.k, lambda: s.k)()

I1, I8, I16, I32, I64 = (Ty("int", n) for n in (1, 8, 16, 32, 64))
PTR, DBL, FLT, VOID, LABEL, META = Ty("ptr"), Ty("double"), Ty("float"), Ty("void"), Ty("label"), Ty("metadata")

TOK = re.compile(r'\s*(?:(;[^\n]*)|(c?"(?:[^"\\]|\\.)*")|([%@$!][-\w.$]+|[%@$]"(?:[^"\\]|\\.)*")|(0x[0-9A-FKLMHRa-f]+)|'
                 r'(-?\d+\.\d*(?:e[-+]?\d+)?|-?\d+)|([A-Za-z_.][\w.]*)|(\.\.\.|<\{|\}>|[\[\]{}()<>,=*:#!]))')

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise SyntaxError("tok: %r" % s[i:i+60])
        i = m.end()
        if m.group(1): continue
        t = m.group(0).strip()
        out.append(t)
    return out

class Toks:
    __slots__ = ("t", "i")
    def __init__(s, t): s.t, s.i = t, 0
    def peek(s, d=0):
        j = s.i + d
        return s.t[j] if j < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1; return v
    def eat(s, x):
        if s.i < len(s.t) and s.t[s.i] == x: s.i += 1; return True
        return False
    def need(s, x):
        v = s.next()
        if v != x: raise SyntaxError("need %s got %s in %s" % (x, v, " ".join(s.t)))

def unq(name):
    return name[0] + name[2:-1] if len(name) > 1 and name[1] == '"' else name

PRIM = {"ptr": PTR, "double": DBL, "float": FLT, "void": VOID, "label": LABEL, "metadata": META}
_INT = {}
def parse_type(T, mod):
    t = T.next()
    if t in PRIM: r = PRIM[t]
    elif t[0] == "i" and t[1:].isdigit():
        r = _INT.setdefault(t, Ty("int", int(t[1:])))
    elif t == "[":
        n = int(T.next()); T.need("x"); e = parse_type(T, mod); T.need("]"); r = Ty("arr", n, e)
    elif t == "<":
        n = int(T.next()); T.need("x"); e = parse_type(T, mod); T.need(">"); r = Ty("vec", n, e)
    elif t == "{" or t == "<{":
        fs = []
        close = "}" if t == "{" else "}>"
        if not T.eat(close):
            while True:
                fs.append(parse_type(T, mod))
                if T.eat(close): break
                T.need(",")
        r = Ty("struct", fields=fs, packed=(t == "<{"))
    elif t[0] == "%":
        r = Ty("named", name=unq(t))
    elif t == "opaque": r = Ty("opaque")
    elif t in ("token", "x86_fp80", "half", "fp128"): r = Ty(t)
    else: raise SyntaxError("type %s in %s" % (t, " ".join(T.t)))
    # function type  "ret (args)" -- only in calls
    return r

def skip_fnty(T, mod):
    """after a type: optional '(…)' function signature"""
    if T.peek() == "(":
        d = 0
        while True:
            x = T.next()
            if x == "(": d += 1
            elif x == ")":
                d -= 1
                if d == 0: break
        return True
    return False

# ---------------------------------------------------------------- operands
class Op:
    """operand: kind in {local, const(int), global, null, undef, zero, float, expr, agg, str}"""
    __slots__ = ("k", "v", "ty", "args")
    def __init__(s, k, v=None, ty=None, args=None): s.k, s.v, s.ty, s.args = k, v, ty, args
    def __repr__(s): return "%s:%s" % (s.k, s.v)

PATTRS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "writeonly",
          "readnone", "returned", "immarg", "nofree", "nosync", "swiftself", "noext", "allocptr", "dead_on_unwind", "writable", "nonnull", "noreturn"}

def skip_pattrs(T):
    while True:
        p = T.peek()
        if p in PATTRS: T.next()
        elif p in ("align",):
            T.next()
            if T.peek() == "(": T.next(); T.next(); T.need(")")
            else: T.next()
        elif p in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype", "range", "captures"):
            T.next()
            skip_fnty(T, None)
        else: return

def parse_value(T, ty, mod):
    t = T.next()
    c = t[0]
    if c == "%": return Op("local", unq(t), ty)
    if c == "@": return Op("global", unq(t)[1:], ty)
    if t in ("true", "false"): return Op("const", 1 if t == "true" else 0, ty)
    if t == "null": return Op("null", None, ty)
    if t in ("undef", "poison"): return Op("undef", None, ty)
    if t == "zeroinitializer": return Op("zero", None, ty)
    if c == "0" and t[1:2] == "x":
        return Op("float", int(t[2:], 16), ty)
    if c.isdigit() or c == "-":
        if ty.k in ("double", "float"):
            return Op("float", struct.unpack("<Q", struct.pack("<d", float(t)))[0], ty)
        return Op("const", int(t), ty)
    if c == "c" and t[1:2] == '"':
        raw = t[2:-1]; b = bytearray(); i = 0
        while i < len(raw):
            if raw[i] == "\\":
                if raw[i+1] == "\\": b.append(92); i += 2
                else: b.append(int(raw[i+1:i+3], 16)); i += 3
            else: b.append(ord(raw[i])); i += 1
        return Op("str", bytes(b), ty)
    if t in ("[", "{", "<", "<{"):
        close = {"[": "]", "{": "}", "<": ">", "<{": "}>"}[t]
        vs = []
        if not T.eat(close):
            while True:
                et = parse_type(T, mod); vs.append(parse_value(T, et, mod))
                if T.eat(close): break
                T.need(",")
        return Op("agg", None, ty, vs)
    if t == "getelementptr":
        T.eat("inbounds"); T.eat("nuw"); T.eat("nusw")
        if T.peek() == "inrange": T.next(); skip_fnty(T, mod)
        T.need("(")
        bt = parse_type(T, mod); args = []
        while T.eat(","):
            T.eat("inrange")
            et = parse_type(T, mod); args.append(parse_value(T, et, mod))
        T.need(")")
        return Op("expr", "gep", ty, [bt] + args)
    if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext"):
        T.need("("); et = parse_type(T, mod); v = parse_value(T, et, mod); T.need("to"); to = parse_type(T, mod); T.need(")")
        return Op("expr", t, to, [v])
    if t in ("add", "sub", "mul", "shl", "and", "or", "xor"):
        while T.peek() in ("nsw", "nuw"): T.next()
        T.need("("); et = parse_type(T, mod); a = parse_value(T, et, mod); T.need(",")
        et = parse_type(T, mod); b = parse_value(T, et, mod); T.need(")")
        return Op("expr", t, ty, [a, b])
    if t == "blockaddress":
        T.need("("); T.next(); T.need(","); T.next(); T.need(")")
        return Op("undef", "blockaddress", ty)
    if t == "asm":
        return Op("asm", None, ty)
    raise SyntaxError("value %s in %s" % (t, " ".join(T.t)))

def tv(T, mod):
    ty = parse_type(T, mod); skip_pattrs(T)
    return parse_value(T, ty, mod)

# ---------------------------------------------------------------- instructions
class Ins:
    __slots__ = ("op", "dst", "ty", "a", "x", "line")
    def __init__(s, op, dst, ty, a, x=None): s.op, s.dst, s.ty, s.a, s.x = op, dst, ty, a, x; s.line = None
    def __repr__(s): return "%s = %s %r" % (s.dst, s.op, s.a)

BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"}
FLAGS = {"nsw", "nuw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "samesign"}

def parse_ins(line, mod):
    T = Toks(tokenize(line))
    dst = None
    if T.peek(1) == "=" and T.peek()[0] == "%":
        dst = unq(T.next()); T.next()
    op = T.next()
    if op in ("tail", "musttail", "notail"): op = T.next()
    if op in BIN:
        fl = set()
        while T.peek() in FLAGS: fl.add(T.next())
        ty = parse_type(T, mod); a = parse_value(T, ty, mod); T.need(","); b = parse_value(T, ty, mod)
        return Ins(op, dst, ty, [a, b], fl)
    if op == "fneg":
        while T.peek() in FLAGS: T.next()
        ty = parse_type(T, mod); return Ins(op, dst, ty, [parse_value(T, ty, mod)])
    if op in ("icmp", "fcmp"):
        while T.peek() in FLAGS: T.next()
        pred = T.next(); ty = parse_type(T, mod); a = parse_value(T, ty, mod); T.need(","); b = parse_value(T, ty, mod)
        return Ins(op, dst, ty, [a, b], pred)
    if op in CAST:
        while T.peek() in FLAGS: T.next()
        v = tv(T, mod); T.need("to"); to = parse_type(T, mod)
        return Ins(op, dst, to, [v])
    if op == "load":
        T.eat("volatile"); at = T.eat("atomic"); T.eat("volatile")
        ty = parse_type(T, mod); T.need(","); p = tv(T, mod)
        return Ins(op, dst, ty, [p], at)
    if op == "store":
        T.eat("volatile"); at = T.eat("atomic"); T.eat("volatile")
        v = tv(T, mod); T.need(","); p = tv(T, mod)
        return Ins(op, dst, v.ty, [v, p], at)
    if op == "getelementptr":
        while T.peek() in ("inbounds", "nuw", "nusw"): T.next()
        bt = parse_type(T, mod); args = []
        while T.eat(","): args.append(tv(T, mod))
        return Ins("gep", dst, PTR, args, bt)
    if op == "phi":
        while T.peek() in FLAGS: T.next()
        ty = parse_type(T, mod); inc = []
        while True:
            T.need("["); v = parse_value(T, ty, mod); T.need(","); b = unq(T.next()); T.need("]"); inc.append((v, b))
            if not T.eat(","): break
        return Ins(op, dst, ty, inc)
    if op == "br":
        if T.peek() == "label":
            T.next(); return Ins("br", None, None, [unq(T.next())])
        c = tv(T, mod); T.need(","); T.need("label"); a = unq(T.next()); T.need(","); T.need("label"); b = unq(T.next())
        return Ins("cbr", None, None, [c, a, b])
    if op == "switch":
        v = tv(T, mod); T.need(","); T.need("label"); d = unq(T.next()); T.need("["); cs = []
        while not T.eat("]"):
            cv = tv(T, mod); T.need(","); T.need("label"); cs.append((cv.v, unq(T.next())))
        return Ins("switch", None, v.ty, [v, d, cs])
    if op == "indirectbr":
        v = tv(T, mod); return Ins("indirectbr", None, None, [v])
    if op == "ret":
        if T.peek() == "void": return Ins("ret", None, None, [])
        return Ins("ret", None, None, [tv(T, mod)])
    if op == "unreachable": return Ins(op, None, None, [])
    if op == "select":
        while T.peek() in FLAGS: T.next()
        c = tv(T, mod); T.need(","); a = tv(T, mod); T.need(","); b = tv(T, mod)
        return Ins(op, dst, a.ty, [c, a, b])
    if op == "alloca":
        T.eat("inalloca")
        ty = parse_type(T, mod); n = None
        while T.eat(","):
            if T.peek() == "align": T.next(); T.next()
            else: n = tv(T, mod)
        return Ins(op, dst, PTR, [n] if n is not None else [], ty)
    if op == "call":
        while T.peek() in FLAGS: T.next()
        while T.peek() in ("fastcc", "ccc", "coldcc"): T.next()
        skip_pattrs(T)
        rt = parse_type(T, mod); skip_fnty(T, mod)
        if T.peek() == "asm":
            return Ins("asm", dst, rt, [])
        f = parse_value(T, PTR, mod); T.need("("); args = []
        if not T.eat(")"):
            while True:
                if T.peek() == "metadata":
                    d = 0
                    while True:
                        p = T.peek()
                        if d == 0 and p in (",", ")"): break
                        if p in "({[": d += 1
                        if p in ")}]": d -= 1
                        T.next()
                    args.append(Op("undef", None, META))
                else: args.append(tv(T, mod))
                if T.eat(")"): break
                T.need(",")
        return Ins("call", dst, rt, args, f)
    if op == "freeze": v = tv(T, mod); return Ins(op, dst, v.ty, [v])
    if op == "extractvalue":
        v = tv(T, mod); idx = []
        while T.eat(","): idx.append(int(T.next()))
        return Ins(op, dst, None, [v], idx)
    if op == "insertvalue":
        v = tv(T, mod); T.need(","); e = tv(T, mod); idx = []
        while T.eat(","): idx.append(int(T.next()))
        return Ins(op, dst, v.ty, [v, e], idx)
    if op in ("extractelement", "insertelement", "shufflevector"):
        a = [tv(T, mod)]
        while T.eat(","): a.append(tv(T, mod))
        return Ins(op, dst, a[0].ty, a)
    if op == "atomicrmw":
        T.eat("volatile"); o = T.next(); p = tv(T, mod); T.need(","); v = tv(T, mod)
        return Ins(op, dst, v.ty, [p, v], o)
    if op == "cmpxchg":
        T.eat("weak"); T.eat("volatile"); p = tv(T, mod); T.need(","); a = tv(T, mod); T.need(","); b = tv(T, mod)
        return Ins(op, dst, a.ty, [p, a, b])
    if op == "fence": return Ins("nop", None, None, [])
    if op == "va_arg":
        p = tv(T, mod); T.need(","); ty = parse_type(T, mod); return Ins(op, dst, ty, [p])
    raise SyntaxError("ins %s" % line)

class Func:
    def __init__(s, mod, name, params, rty, body):
        s.mod, s.name, s.params, s.rty, s._body = mod, name, params, rty, body
        s._blocks = None; s._loops = None
    @property
    def blocks(s):
        if s._blocks is None: s._parse()
        return s._blocks
    def _parse(s):
        blocks, order, cur = {}, [], None
        lines = s._body; i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            st = ln.strip()
            if not st or st.startswith(";"): continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
            if m:
                nm = m.group(1); nm = nm[1:-1] if nm[0] == '"' else nm
                cur = "%" + nm; blocks[cur] = []; order.append(cur); continue
            if cur is None:
                cur = "%entry"; blocks[cur] = []; order.append(cur)
            if st.startswith("switch") or " switch " in st[:12]:
                while "]" not in st: st += " " + lines[i].strip(); i += 1
            k = st.find(", !")
            # strip metadata attachments
            st = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', st)
            st = re.sub(r'\s#\d+\s*$', '', st)
            st = re.sub(r', align \d+$', '', st)
            ins = parse_ins(st, s.mod); ins.line = st
            blocks[cur].append(ins)
        s._blocks, s.order = blocks, order
    def succs(s, b):
        t = s.blocks[b][-1]
        if t.op == "br": return [t.a[0]]
        if t.op == "cbr": return [t.a[1], t.a[2]]
        if t.op == "switch": return [t.a[1]] + [x for _, x in t.a[2]]
        return []
    @property
    def loops(s):
        """header -> set of blocks (natural loops, same-header merged)"""
        if s._loops is not None: return s._loops
        bl = s.blocks; entry = s.order[0]
        # iterative dominators
        rpo, seen = [], set()
        st = [(entry, iter(s.succs(entry)))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n); st.append((n, iter(s.succs(n)))); break
            else:
                rpo.append(b); st.pop()
        rpo.reverse(); num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for n in s.succs(b): preds[n].append(b)
        idom = {entry: entry}; ch = True
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = idom[a]
                while num[b] > num[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                d = ps[0]
                for p in ps[1:]: d = inter(d, p)
                if idom.get(b) != d: idom[b] = d; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for h in s.succs(b):
                if dom(h, b):
                    body = loops.setdefault(h, {h})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x); w.extend(preds[x])
        s._loops = loops; s._preds = preds
        return loops

class Glob:
    __slots__ = ("name", "ty", "init", "const", "tls", "mod")

class Module:
    def __init__(s, text, name):
        s.name = name; s.types = {}; s.funcs = {}; s.globs = {}; s.decls = set(); s.aliases = {}
        lines = text.split("\n"); i = 0; n = len(lines)
        while i < n:
            ln = lines[i]; i += 1
            if ln.startswith("define "):
                j = i
                while lines[j] != "}": j += 1
                s._define(ln, lines[i:j]); i = j + 1
            elif ln.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                s.decls.add(unq("@" + m.group(1))[1:])
            elif ln.startswith("%") and " = type " in ln:
                nm, rest = ln.split(" = type ", 1)
                s.types[unq(nm)] = parse_type(Toks(tokenize(rest)), s)
            elif ln.startswith("@"):
                s._glob(ln)
    def _define(s, ln, body):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
        name = unq("@" + m.group(1))[1:]
        T = Toks(tokenize(ln[m.end() - 1:]))
        T.need("("); params = []; va = False; sx = []
        if not T.eat(")"):
            while True:
                if T.eat("..."): va = True
                else:
                    ty = parse_type(T, s); k0 = T.i; skip_pattrs(T)
                    sx.append("signext" in T.t[k0:T.i])
                    params.append((unq(T.next()), ty))
                if T.eat(")"): break
                T.need(",")
        rt = ln[:m.start()]
        s.funcs[name] = Func(s, name, params, rt, body)
        s.funcs[name].va = va; s.funcs[name].sext = sx
        s.funcs[name].avail_ext = "available_externally" in rt
        s.funcs[name].internal = " internal " in rt
    def _glob(s, ln):
        m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', ln)
        g = Glob(); g.name = unq("@" + m.group(1))[1:]; rest = m.group(2); g.mod = s
        g.tls = "thread_local" in rest
        mm = re.search(r'(?:^|\s)(global|constant)\s', rest)
        if not mm: return
        g.const = mm.group(1) == "constant"
        ext = rest.startswith("external") or " external " in rest[:mm.start()]
        body = re.sub(r'(, (align \d+|section "[^"]*"|comdat(\([^)]*\))?|![\w.]+ !\d+))+\s*$', '', rest[mm.end():])
        try:
            T = Toks(tokenize(body)); g.ty = parse_type(T, s)
            g.init = None if ext or T.peek() is None else parse_value(T, g.ty, s)
        except SyntaxError:
            g.ty = None; g.init = None
        s.globs[g.name] = g
    # layout
    def resolve(s, ty):
        while ty.k == "named": ty = s.types[ty.name]
        return ty
    def align(s, ty):
        ty = s.resolve(ty)
        if ty.k == "int": return max(1, min(8, 1 << max(0, (ty.n // 8 - 1)).bit_length())) if ty.n > 8 else 1
        if ty.k in ("ptr", "double"): return 8
        if ty.k == "float": return 4
        if ty.k == "arr": return s.align(ty.elt)
        if ty.k == "vec": return min(32, s.size(ty))
        if ty.k == "struct": return 1 if ty.packed else max([s.align(f) for f in ty.fields] or [1])
        if ty.k == "x86_fp80": return 16
        raise ValueError(ty)
    def size(s, ty):
        ty = s.resolve(ty)
        if ty.k == "int": return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty.n, (ty.n + 7) // 8)
        if ty.k in ("ptr", "double"): return 8
        if ty.k == "float": return 4
        if ty.k in ("arr", "vec"): return ty.n * s.size(ty.elt)
        if ty.k == "struct":
            o = 0
            for f in ty.fields:
                if not ty.packed: a = s.align(f); o = (o + a - 1) // a * a
                o += s.size(f)
            a = s.align(ty); return (o + a - 1) // a * a
        if ty.k == "x86_fp80": return 16
        raise ValueError(ty)
    def offset(s, ty, i):
        ty = s.resolve(ty); o = 0
        for j, f in enumerate(ty.fields):
            if not ty.packed: a = s.align(f); o = (o + a - 1) // a * a
            if j == i: return o, f
            o += s.size(f)
        raise IndexError

if __name__ == "__main__":
    import sys, glob, time
    t = time.time(); nf = 0
    for p in sys.argv[1:]:
        m = Module(open(p).read(), p)
        for f in m.funcs.values():
            try:
                f.blocks; f.loops; nf += 1
            except Exception as e:
                print(p, f.name, type(e).__name__, str(e)[:300])
    print(nf, "functions", time.time() - t)
