#!/usr/bin/env python3
"""Transcribes the wire layout of every decoder of the tree at hand into spec/wire.json (run once, reviewed, committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer", "s2"))
import build, wire
from facts import Facts
if __name__ == "__main__":
    s = wire.make_spec(Facts(build.facts()))
    with open(os.path.join(V, "spec", "wire.json"), "w") as f:
        f.write('{"decoders": {\n' + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(v, sort_keys=True)) for k, v in sorted(s["decoders"].items())) + "\n}}\n")
    print(len(s["decoders"]), "decoders")
