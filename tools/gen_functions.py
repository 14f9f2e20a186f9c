"""spec/functions.json: the functions of the library as they were when the rules were written (run deliberately only)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "analyzer", "s2"))
import build
from facts import Facts
F = Facts(build.facts())
out = sorted({s.p for s in F.stubs.values() if s.bk == "fn" and not s.file.startswith("src/generator/")})
json.dump(out, open(os.path.join(build.VERIF if hasattr(build, "VERIF") else os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "functions.json"), "w"), indent=0)
print(len(out))
