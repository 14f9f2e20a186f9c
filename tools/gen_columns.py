#!/usr/bin/env python3
"""Transcribes the correspondence of the exports (spec/columns.json) from the tree; the result was compared by hand with column names, doc comments and event fields."""
import json, os, sys
sys.setrecursionlimit(20000)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer", "s2"))
import build
from facts import Facts
import rules_export as rx
F = Facts(build.facts())
t = rx.export_tables(F)
out = {n: t[n][0] for n in rx.export_names()}
for n in out:
    if out[n] is None: print(n, t[n][1]); raise SystemExit(1)
json.dump(out, open(os.path.join(V, "spec", "columns.json"), "w"), indent=1, sort_keys=True)
print(len(out), "functions"); print([n for n in t if n not in out])
