#!/usr/bin/env python3
"""Transcribes what each event does (spec/state.json) from the tree; the result was compared by hand with the documentation and the properties."""
import json, os, sys
sys.setrecursionlimit(20000)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer", "s2"))
import build
from facts import Facts
import rules_state as rs
F = Facts(build.facts())
out = {}
for k, (r, err) in rs.state_tables(F).items():
    if r is None: print(k, err); raise SystemExit(1)
    t = rs.plain_table(k, r)
    if t is not None: out[rs.spec_key(k)] = t
json.dump(out, open(os.path.join(V, "spec", "state.json"), "w"), indent=1, sort_keys=True)
print(len(out), "tables")
