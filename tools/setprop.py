#!/usr/bin/env python3
"""setprop.py ID FIELD TEXT : edits one field of a property in properties.jsonl"""
import sys, json
ID, F, T = sys.argv[1:4]; p = "/verif/properties.jsonl"
L = [json.loads(l) for l in open(p)]
for d in L:
    if d["id"] == ID:
        if F == "qtext": d["quantifier"]["text"] = T
        elif F == "files": d["anchors"]["files"] = T.split(",")
        else: d[F] = T
open(p, "w").write("".join(json.dumps(d) + "\n" for d in L))
