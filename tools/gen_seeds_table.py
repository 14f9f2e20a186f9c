"""Writes the table of planted bugs into DESIGN.md, between the two marks (reads seeded/*/meta.json; run by hand)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    p = os.path.join(V, "seeded", d, "meta.json")
    if not os.path.exists(p): continue
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], " ".join(m["what_it_breaks"].split()).replace("|", "/"), m.get("caught_by", m["property"])))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
