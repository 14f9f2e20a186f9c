#!/usr/bin/env python3
"""Transcribes the correspondence of the conversions (spec/conversions.json) from the tree; the result was compared by hand with the field names."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer", "s2"))
import build
from facts import Facts
from canon import canon_job
import rules_version as rv
F = Facts(build.facts())
out = {n: canon_job(F, [], i)[0] for n, i in sorted(rv.pairs(F).items())}
json.dump(out, open(os.path.join(V, "spec", "conversions.json"), "w"), indent=1, sort_keys=True)
print(len(out), "conversions", sum(len(x) for x in out.values()), "entries")
