#!/usr/bin/env python3
"""Transcribes what the functions of rules_more do (spec/more.json) from the tree; the result was compared by hand with the documentation and the properties."""
import json, os, sys
sys.setrecursionlimit(20000)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer", "s2"))
import build
from facts import Facts
import rules_more as rm
F = Facts(build.facts())
out = {}
for k, (r, err) in rm.found(F).items():
    if r is None: print(k, err); raise SystemExit(1)
    out["%s %s" % k[:2]] = rm.plain(r)
json.dump(out, open(os.path.join(V, "spec", "more.json"), "w"), indent=1, sort_keys=True, ensure_ascii=False)
print(len(out), "tables")
