"""Builds LLVM IR of /repo's current sources and finds functions in it."""
import os, subprocess, tempfile, shutil, atexit, glob, re, concurrent.futures as cf
import ir
REPO = os.environ.get("RAYVC_REPO", "/repo")
CLANG = "/usr/bin/clang"
OPT = "/usr/lib/llvm-18/bin/opt"
BASE = ["-fPIC", "-m64", "-march=x86-64-v3", "-fsigned-char", "-std=c17", "-include", "core/def.h", '-DGIT_HASH="x"']
PIPE = "function(sroa,early-cse,simplifycfg,sroa)"
SKIP = {"epoll", "iocp", "kqueue", "wasm"}
class BuildError(Exception): pass

def scratch():
    d = tempfile.mkdtemp(prefix="rayvc_")
    atexit.register(shutil.rmtree, d, True)
    return d

def makefile_sources():
    """core object list from the Makefile (so that added source files are seen)"""
    try:
        t = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
        m = re.search(r"^CORE_OBJECTS\s*=(.*)$", t, re.M)
        fs = [os.path.join(REPO, o[:-2] + ".c") for o in m.group(1).split()]
        if fs and all(os.path.exists(f) for f in fs): return fs
    except (OSError, AttributeError): pass
    fs = sorted(glob.glob(os.path.join(REPO, "core/*.c")))
    return [f for f in fs if os.path.basename(f)[:-2] not in SKIP]

class World:
    def __init__(s, outdir=None, only=None, extra=None):
        s.dir = outdir or scratch()
        s.mods = {}; s.where = {}; s.gwhere = {}
        srcs = makefile_sources()
        if only: srcs = [f for f in srcs if os.path.basename(f)[:-2] in only]
        s.extra = {}
        for n, t in (extra or {}).items():
            f = os.path.join(s.dir, n + ".c"); open(f, "w").write(t); srcs.append(f); s.extra[n] = t
        def one(f):
            o = os.path.join(s.dir, os.path.basename(f)[:-2] + ".ll")
            p1 = subprocess.run([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-w", *BASE, "-I" + REPO, "-S", "-emit-llvm", "-fno-discard-value-names", f, "-o", o + ".0"],
                                cwd=REPO, capture_output=True, text=True)
            if p1.returncode: return f, p1.stderr[:2000]
            p2 = subprocess.run([OPT, "-S", "-passes=" + PIPE, o + ".0", "-o", o], capture_output=True, text=True)
            if p2.returncode: return f, p2.stderr[:2000]
            os.unlink(o + ".0")
            return f, None
        with cf.ThreadPoolExecutor(8) as ex:
            for f, err in ex.map(one, srcs):
                if err: raise BuildError("%s does not compile: %s" % (f, err))
        s.paths = {}
        for f in srcs:
            n = os.path.basename(f)[:-2]; p = os.path.join(s.dir, n + ".ll"); s.paths[n] = p
            with open(p) as h:
                for ln in h:
                    if ln.startswith("define ") and " internal " not in ln[:80] and "available_externally" not in ln[:80]:
                        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                        s.where[m.group(1).strip('"')] = n
                    elif ln[:1] == "@" and " external " not in ln[:120] and ("global" in ln[:160] or "constant" in ln[:160]) and " private " not in ln[:80] and " internal " not in ln[:80]:
                        m = re.match(r'@("[^"]*"|[-\w.$]+)', ln); s.gwhere.setdefault(m.group(1).strip('"'), n)
    def mod(s, n):
        if n not in s.mods: s.mods[n] = ir.Module(open(s.paths[n]).read(), n)
        return s.mods[n]
    def func(s, name, mod=None):
        """function by name; static ones need the module (any module having it otherwise)"""
        if mod and mod in s.paths and name in s.mod(mod).funcs: f = s.mod(mod).funcs[name]
        elif name in s.where: f = s.mod(s.where[name]).funcs[name]
        else:
            f = None
            for n in s.paths:
                if name in s.mod(n).funcs: f = s.mod(n).funcs[name]; break
            if f is None: return None
        f.blocks; f.order_entry = f.order[0]
        return f
    def find(s, mod, name):
        f = mod.funcs.get(name)
        if f is not None and not f.avail_ext: f.blocks; f.order_entry = f.order[0]; return f
        if name in s.where: return s.func(name)
        if f is not None: f.blocks; f.order_entry = f.order[0]; return f
        return None
    def find_glob(s, mod, name):
        g = mod.globs.get(name)
        if g is not None and g.init is not None: return g, mod
        if name in s.gwhere:
            m = s.mod(s.gwhere[name]); return m.globs.get(name), m
        return g, mod
