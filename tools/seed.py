#!/usr/bin/env python3
"""seed.py ID PROP NEEDS BREAKS FILE OLD NEW [COUNT] < demo script : creates seeded/ID from a textual edit, confirms it (build, tests, demo) and undoes it.
The demo body (stdin) is a rayforce script followed by a line '====' and the expected output; or, starting with '#!', a shell script."""
import sys, os, subprocess, json
ID, PROP, NEEDS, BREAKS, FILE, OLD, NEW = sys.argv[1:8]; CNT = int(sys.argv[8]) if len(sys.argv) > 8 else 1
NTH = int(os.environ.get("NTH", "0"))
d = "/verif/seeded/" + ID; os.makedirs(d, exist_ok=True)
body = sys.stdin.read()
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if body.startswith("#!"): open(d + "/demo.sh", "w").write(body)
else:
    scr, exp = body.split("====\n")
    open(d + "/demo.rfl", "w").write(scr); open(d + "/expected.txt", "w").write(exp)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# runs the script beside it with the built interpreter and compares its output\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\ntimeout 60 ./_build/rayforce "$d/demo.rfl" </dev/null >"$t/out" 2>&1\ndiff "$d/expected.txt" "$t/out"\n')
os.chmod(d + "/demo.sh", 0o755)
p = "/repo/" + FILE; s = open(p).read()
assert s.count(OLD) == CNT, ("occurrences", s.count(OLD))
if CNT > 1:
    i = -1
    for _ in range(NTH + 1): i = s.index(OLD, i + 1)
    t = s[:i] + NEW + s[i + len(OLD):]
else: t = s.replace(OLD, NEW)
r0 = sh("bash /opt/vp/build.sh"); clean = sh("cd /repo && bash %s/demo.sh" % d)
open(p, "w").write(t)
try:
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    b = sh("bash /opt/vp/build.sh")
    ts = sh("bash /opt/vp/test.sh /tmp/seed_out.json"); n = ts.stdout.strip().split("\n")[-1]
    bad = sh("cd /repo && bash %s/demo.sh" % d)
finally:
    sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
json.dump(dict(property=PROP, needs=NEEDS, what_it_breaks=BREAKS), open(d + "/meta.json", "w"), indent=1)
ok = clean.returncode == 0 and b.returncode == 0 and bad.returncode != 0 and n.startswith("185 passed")
print("failed tests:", json.load(open("/tmp/seed_out.json"))["failed"]) if not n.startswith("185 passed") else 0
print(ID, "OK" if ok else "NOT OK", "clean", clean.returncode, clean.stdout[-600:] if clean.returncode else "", "build", b.returncode, b.stderr[-300:] if b.returncode else "", "tests", n, "patched", bad.returncode)
sys.exit(0 if ok else 1)
