#!/usr/bin/env python3-vt
"""check.py <property> : verifies every contract of the property against /repo's current sources.
exit 0: all obligations discharged (known findings excepted); exit 1 + VIOLATION line(s): some obligation failed; exit 2: no answer."""
import os, sys, time, json, importlib, multiprocessing as mp, traceback, re, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "rayvc")]
sys.setrecursionlimit(20000)
import world, contract, native, sym as S
PROP = sys.argv[1]
TIER = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
TOTAL = 780 if TIER == "quick" else 6 * 3600
PROOF_T = 540 if TIER == "quick" else 5 * 3600

def load(prop):
    mod = importlib.import_module("contracts." + prop.lower())
    return mod, list(mod.instances(TIER))

def known(prop):
    """lines: 'finding: property=ID inst=<instance> [obl=<obligation>] : text'; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+inst=(\S+)(?:\s+obl=(\S+))?\s*:?\s*(.*)", ln.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

class ser_model:
    """picklable counterexample: input name -> value(s)"""
def model_hints(bad):
    try: return native.hints_from([o.model for o in bad if o.model is not None][:4])
    except Exception: return {}
def run1(k):
    tm = 8000; scale = 1
    if isinstance(k, tuple): k, tm, scale = k
    I = INSTS[k]
    if time.time() - T0 > PROOF_T: return dict(k=k, name=I.name, ok=False, error="time budget of the check exhausted", obls=[], t=0, solver=0, queries=0, used=[], inl=[], bi=[], bounded=[], by={}, paths=0, hints={})
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        r = contract.verify(W, I, contract.BASE, timeout_ms=tm if TIER == "quick" else 60000, budget=60 if TIER == "quick" else 600, scale=scale if TIER == "quick" else 4)
        return dict(k=k, name=r.name, ok=r.ok, error=r.error, obls=[(o.name, o.status, round(o.t, 3), (o.detail or "")[:1500] if o.status != "proved" else "") for o in r.obls], t=r.t, solver=r.solver, queries=r.queries,
                    used=sorted(r.used), inl=sorted(r.inl), bi=sorted(r.bi), bounded=sorted(map(str, r.bounded)), by=r.by, paths=r.paths, timeouts=r.timeouts, hints=model_hints(r.bad),
                    model=str(r.bad[0].model)[:3000] if r.bad and r.bad[0].model is not None else None)
    except MemoryError:
        return dict(k=k, name=I.name, ok=False, error="out of memory", obls=[], t=0, solver=0, queries=0, used=[], inl=[], bi=[], bounded=[], by={}, paths=0, hints={})
    except Exception as e:
        return dict(k=k, name=I.name, ok=False, error="internal: %r %s" % (e, traceback.format_exc()[-800:]), obls=[], t=0, solver=0, queries=0, used=[], inl=[], bi=[], bounded=[], by={}, paths=0, hints={})
def rep1(a):
    k, hints, secs = a
    try:
        I = INSTS[k]
        if not I.native_ok: return k, dict(kind="skipped")
        native.hints_from = lambda m: hints
        return k, native.replay(W, I, SO, [], SEED * 1000003 + k, secs)
    except Exception as e: return k, dict(kind="error", what=repr(e))

def main():
    global W, INSTS, SO
    mod = importlib.import_module("contracts." + PROP.lower())
    try: W = world.World(extra=mod.extra() if hasattr(mod, "extra") else None)
    except world.BuildError as e:
        print("ERROR: the current sources do not compile:", e); return 2
    INSTS = list(mod.instances(TIER))
    for fn, m in {(i.fn, i.module) for i in INSTS}:      # parse once, before forking
        try: W.func(fn, m)
        except Exception: pass
    for c in getattr(mod, "PRELOAD", []): W.mod(c)
    order = sorted(range(len(INSTS)), key=lambda k: -getattr(INSTS[k], "cost", 1))
    with mp.Pool(8, maxtasksperchild=30) as P:
        res = []
        for r in P.imap_unordered(run1, order, chunksize=1): res.append(r)
    # solver time-outs: one more attempt with a longer limit
    again = [r["k"] for r in res if not r["ok"] and (r.get("timeouts") or r["error"] is None and all(o[1] != "failed" for o in r["obls"]))]
    if again and TIER == "quick" and len(again) <= 24 and time.time() - T0 < 350:
        with mp.Pool(8, maxtasksperchild=1) as P: r2 = {r["k"]: r for r in P.imap_unordered(run1, [(k, 40000, 6) for k in again], chunksize=1)}
        res = [r2.get(r["k"], r) for r in res]
    res.sort(key=lambda r: r["k"])
    # ---- failures: known findings first, the rest is replayed on the compiled code
    kn = known(PROP); hit = {}
    fails = []
    for r in res:
        if r["ok"]: continue
        left = [o for o in r["obls"] if o[1] != "proved"]
        if r["error"] is None or left:
            rest = []
            for o in left:
                m = [x for x in kn if x[0] == r["name"] and (x[1] is None or x[1] == o[0].split("/", 1)[-1].split()[0])]
                if m: hit.setdefault(m[0], []).append(o[0])
                else: rest.append(o)
            if not rest and r["error"] is None: r["known"] = True; continue
            r["left"] = rest
        fails.append(r)
    for m in hit: print("KNOWN-FINDING: property=%s %s: %s" % (PROP, m[0], m[2]))
    lines = []; reps = {}
    trials = 0
    val = {}
    if fails or TIER == "thorough":
        st = {}
        for i in INSTS:
            f = W.func(i.fn, i.module)
            if f is not None and f.internal: st.setdefault(f.mod.name, set()).add(i.fn)
        try: SO = native.build_lib(W.dir, st, W.extra)
        except Exception as e: SO = None; print("note: replay library not built:", str(e)[:300])
        if SO and fails:
            left = TOTAL - (time.time() - T0)
            secs = max(4.0, min(25.0, left * 8 / max(1, len(fails)) * 0.8))
            cap = int(max(8, left * 8 / secs * 0.8))
            with mp.Pool(8, maxtasksperchild=4) as P:
                for k, v in P.imap_unordered(rep1, [(r["k"], r["hints"], secs) for r in fails][:cap], chunksize=1): reps[k] = v
        if SO and TIER == "thorough":
            # contract validation: the contracts that were proved, run on the compiled code
            with mp.Pool(8, maxtasksperchild=8) as P:
                for k, v in P.imap_unordered(rep1, [(r["k"], {}, 3.0) for r in res if r["ok"]], chunksize=1): val[k] = v
            for k, v in sorted(val.items()):
                if v["kind"] in ("mismatch", "crash", "hang"):
                    r = [x for x in res if x["k"] == k][0]; r["error"] = "proved, but the compiled code disagrees with the contract"; fails.append(r); reps[k] = v
    rd = os.path.join(HERE, "replays", PROP); 
    if fails: os.makedirs(rd, exist_ok=True)
    conc = [r for r in fails if reps.get(r["k"], {}).get("kind") in ("mismatch", "crash", "hang")]
    for r in (conc or fails)[:20]:
        rp = reps.get(r["k"], {"kind": "none"})
        path = os.path.join(rd, re.sub(r"[^\w.-]+", "_", r["name"])[:120] + ".json")
        o = (r.get("left") or [("(%s)" % (r["error"] or "?").split("\n")[0], "failed", 0, r["error"])])[0]
        json.dump(dict(property=PROP, contract=r["name"], function=INSTS[r["k"]].fn, failed_obligations=[x[:4] for x in r.get("left", [])][:10], engine=r["error"],
                       counterexample=r.get("model"), replay=rp, seed=SEED), open(path, "w"), indent=1)
        print("failed obligation: %s  [%s]" % (o[0], (r["error"] or o[3] or "").split("\n")[0][:200]))
        if r in conc: print("  replayed on the compiled code: %s %s" % (rp["kind"], json.dumps(rp.get("failed") or rp.get("signal"))[:200])); print("  inputs: %s" % json.dumps(rp.get("inputs"))[:400])
        print("VIOLATION property=%s replay=%s%s" % (PROP, path, "" if r in conc else " no-failing-input-found"))
    nob = sum(len(r["obls"]) for r in res); ndis = sum(1 for r in res for o in r["obls"] if o[1] == "proved")
    fns = sorted({i.fn for i in INSTS})
    by = {}
    for r in res:
        for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
    used = sorted({u for r in res for u in r["used"]}); bi = sorted({u for r in res for u in r["bi"]}); inl = sorted({u for r in res for u in r["inl"]}); bnd = sorted({u for r in res for u in r["bounded"]})
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=getattr(mod, "LEVEL", "proof"),
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd="python3-vt /verif/check.py %s%s" % (PROP, " --thorough" if TIER == "thorough" else ""),
                            trusted_base=["clang 18 front end (C -> LLVM IR, -O1 -disable-llvm-passes, then opt sroa,early-cse,simplifycfg)", "rayvc engine (LLVM IR semantics, loop summaries by induction)",
                                          "z3 (bit-vectors + uninterpreted functions)", "lia.py integer back end"] + ["contract assumed on callee: " + u for u in used] + ["library model: " + b for b in bi],
                            contracts=len(INSTS), contracts_verified=sum(1 for r in res if r["ok"]), functions_under_contract=fns, functions_inlined_into_obligations=inl,
                            bounded=bnd, queries=sum(r["queries"] for r in res), queries_by_backend=by, solver_seconds=round(sum(r["solver"] for r in res), 1), cpu_seconds=round(sum(r["t"] for r in res), 1),
                            paths=sum(r["paths"] for r in res), slowest=[(round(r["t"], 1), r["name"]) for r in sorted(res, key=lambda r: -r["t"])[:5]],
                            known_findings=[m[0] for m in hit], contract_validation_trials=sum(v.get("trials", 0) for v in val.values())),
              assumptions=COMMON + list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - T0, 1), violations=len(fails))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1)
    print("%s: %d contracts on %d functions, %d/%d obligations discharged, %d failed, %.0f s" % (PROP, len(INSTS), len(fns), ndis, nob, len(fails), time.time() - T0))
    return 1 if fails else 0

COMMON = ["the compiler translates the IR faithfully (optimisation with -funsafe-math-optimizations/-fassociative-math may reassociate float operations; results are specified up to that)",
          "heap_alloc never returns NULL and returns a fresh block of at least the requested size", "vectors have fewer than 2^36 elements",
          "integer arithmetic is two's complement wrap-around (the build's signed-overflow UB is not exploited)",
          "float +,-,*,/ are uninterpreted functions with NaN propagation, commutativity and sign symmetry; fmuladd = mul then add",
          "one thread at a time executes the function under contract; the atomics it uses are plain accesses"]
if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); sys.exit(rc)
