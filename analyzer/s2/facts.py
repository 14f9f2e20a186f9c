"""Load the compiler facts (MIR, ADTs, impls) and provide a simplified CFG per body."""
import json, re, sys


def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "nd": return list(t[1])
    if k == "switch": return [b for _, b in t[3]] + [t[4]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[4]]
    return []


def retarget(t, f):
    k = t[0]
    if k == "goto": t[1] = f(t[1])
    elif k == "nd": t[1] = sorted(set(f(x) for x in t[1]))
    elif k == "switch":
        t[3] = [[v, f(b)] for v, b in t[3]]; t[4] = f(t[4])
    elif k == "call":
        if t[4] is not None: t[4] = f(t[4])
    elif k == "assert": t[4] = f(t[4])


LOGGING = ("nom_mpq::parser::peek_hex", "peek_bits")


def simplify(bbs):
    for bb in bbs:
        if bb is None: continue
        t = bb["t"]
        if t[0] == "drop":
            # destructors decide nothing here, except that they release a lock
            if "MutexGuard" in t[3]: bb["s"].append([[0], ["unlock", t[1]], bb["l"], ""])
            bb["t"] = ["goto", t[2]]
        elif t[0] == "call" and t[4] is not None and t[1][0] == "k" and "fn" in t[1][1] and t[1][1]["fn"]["rp"] in LOGGING:
            bb["t"] = ["goto", t[4]]   # argument of a log line
    for _ in range(60):
        changed = False
        fwd = {}
        for i, bb in enumerate(bbs):
            if bb is None: continue
            t = bb["t"]
            if t[0] == "nd" and len(t[1]) == 1:
                bb["t"] = t = ["goto", t[1][0]]; changed = True
            if t[0] == "goto" and not bb["s"] and t[1] != i: fwd[i] = t[1]
        if not fwd and not changed: break
        res = {}
        for i in fwd:
            seen = set(); x = i
            while x in fwd and x not in seen:
                seen.add(x); x = fwd[x]
            res[i] = x
        f = lambda x: res.get(x, x)
        for i, bb in enumerate(bbs):
            if bb is None: continue
            before = succs(bb["t"])
            retarget(bb["t"], f)
            if bb["t"][0] == "nd" and i in bb["t"][1]:
                bb["t"][1] = [x for x in bb["t"][1] if x != i] or bb["t"][1]
            if succs(bb["t"]) != before: changed = True
        if not changed: break
    seen = set(); st = [0]
    while st:
        x = st.pop()
        if x in seen or bbs[x] is None: continue
        seen.add(x); st.extend(succs(bbs[x]["t"]))
    for i in range(len(bbs)):
        if i not in seen: bbs[i] = None


class Body:
    def __init__(self, j):
        self.id = j.get("id"); self.p = j.get("p"); self.file = j.get("file"); self.line = j.get("line")
        self.exp = j.get("exp", ""); self.parent = j.get("parent"); self.pub = j.get("pub")
        for bb in j["bbs"]:
            # the unused borrow of a logging argument goes with it
            if bb and bb["t"][0] == "call" and bb["t"][1][0] == "k" and "fn" in bb["t"][1][1] and bb["t"][1][1]["fn"]["rp"] in LOGGING:
                bb["s"] = [s for s in bb["s"] if not (s[1][0] == "ref" and any(a[0] in "cm" and a[1] == s[0] for a in bb["t"][2]))]
        self.bk = j.get("bk"); self.nargs = j["nargs"]; self.locals = j["locals"]
        self.names = {int(k): v for k, v in j["names"].items()}
        self.bbs = j["bbs"]
        self.promoted_raw = j.get("promoted", [])
        self._prom = {}
        self.value = j.get("value"); self.ty = j.get("ty")
        self._multi = None
        simplify(self.bbs)

    def promoted(self, i):
        if i not in self._prom: self._prom[i] = Body(self.promoted_raw[i])
        return self._prom[i]

    @property
    def ret_ty(self): return self.locals[0]

    def multi(self):
        """locals that need flow-sensitive treatment: assigned more than once, assigned through a
        projection, or mutably borrowed"""
        if self._multi is None:
            n = {}; m = set()
            for bb in self.bbs:
                if bb is None: continue
                for s in bb["s"]:
                    p = s[0]
                    if len(p) > 1:
                        if p[1] != "*": m.add(p[0])
                    else: n[p[0]] = n.get(p[0], 0) + 1
                    r = s[1]
                    if r[0] == "ref" and r[2] and not (len(r[1]) > 1 and r[1][1] == "*"): m.add(r[1][0])
                t = bb["t"]
                if t[0] == "call":
                    p = t[3]
                    if len(p) > 1: m.add(p[0])
                    else: n[p[0]] = n.get(p[0], 0) + 1
            for i in range(1, self.nargs + 1): n[i] = n.get(i, 0) + 1
            m |= {k for k, v in n.items() if v > 1}
            self._multi = m
        return self._multi

    def where(self, line=None):
        return f"{self.file}:{line or self.line} in {self.p}"


_RE = re.compile(r'^\{"kind":"body","bk":"(\w+)","id":"((?:[^"\\]|\\.)*)","p":"((?:[^"\\]|\\.)*)","file":"((?:[^"\\]|\\.)*)","line":(\d+),"exp":"((?:[^"\\]|\\.)*)","parent":"((?:[^"\\]|\\.)*)","pub":(\w+),')


class Stub:
    __slots__ = ("bk", "id", "p", "file", "line", "exp", "parent", "pub", "raw", "mono")


class Facts:
    def __init__(self, path):
        self.adts = {}; self.impls = []; self.stubs = {}; self.impl_of = {}; self._b = {}; self.glue = []
        complete = False
        for line in open(path):
            if line.startswith('{"kind":"body"'):
                m = _RE.match(line)
                s = Stub()
                s.bk = m.group(1); s.id = json.loads('"%s"' % m.group(2)); s.p = json.loads('"%s"' % m.group(3))
                s.file = m.group(4); s.line = int(m.group(5)); s.exp = m.group(6)
                s.parent = json.loads('"%s"' % m.group(7)); s.pub = m.group(8) == "true"; s.raw = line
                g = re.match(r'"mono":("(?:[^"\\]|\\.)*"),', line[m.end():])
                s.mono = json.loads(g.group(1)) if g else ""
                self.stubs[s.id] = s
                continue
            if line.startswith('{"kind":"glue"'): self.glue.append(line); continue
            j = json.loads(line)
            k = j["kind"]
            if k == "adt": self.adts[j["id"]] = j
            elif k == "impl":
                self.impls.append(j)
                for it in j["items"]: self.impl_of[it] = j
            elif k == "end": complete = True
        if not complete: raise SystemExit("incomplete facts file " + path)
        self.by_pretty = {}
        for s in self.stubs.values():
            if not s.mono: self.by_pretty.setdefault(s.p, []).append(s.id)
        self.from_impls = {}
        for i in self.impls:
            m = re.match(r"core::convert::(From|TryFrom)<(.*)>$", i["trait"]) or re.match(r"(?:std::convert::)?(From|TryFrom)<(.*)>$", i["trait"])
            if m:
                fns = [x for x in i["items"] if x.split("::")[-1] in ("from", "try_from")]
                if fns: self.from_impls[(norm_ty(m.group(2)), norm_ty(i["self"]))] = fns[0]
        self.from_pair = {v: k for k, v in self.from_impls.items()}
        self.children = {}
        for s in self.stubs.values():
            if s.mono and self.impl_of.get(s.id[:len(s.id) - len(s.mono)]): self.impl_of[s.id] = self.impl_of[s.id[:len(s.id) - len(s.mono)]]
        for s in self.stubs.values(): self.children.setdefault(s.parent, []).append(s.id)

    def impl_exp(self, id):
        i = self.impl_of.get(id)
        return i["exp"] if i else ""

    def ctor(self, id):
        """(adt, variant index, variant name, field names) of a constructor function"""
        id = id.replace("::{constructor#0}", "")
        if id in self.adts:
            a = self.adts[id]; v = a["variants"][0]
            return (id, 0, v["name"], [f[0] for f in v["fields"]])
        h, _, t = id.rpartition("::")
        a = self.adts.get(h)
        if a:
            for i, v in enumerate(a["variants"]):
                if v["name"] == t: return (h, i, t, [f[0] for f in v["fields"]])
        return None

    def has(self, id): return id in self.stubs

    def body(self, id):
        b = self._b.get(id)
        if b is None:
            b = self._b[id] = Body(json.loads(self.stubs[id].raw))
        return b

    def find(self, pat, bk=None):
        r = re.compile(pat)
        return [s for s in self.stubs.values() if r.search(s.p) and (bk is None or s.bk == bk)]

    def one(self, pretty):
        l = self.by_pretty.get(pretty, [])
        return self.body(l[0]) if len(l) == 1 else None


_LT = re.compile(r"'[a-z_]\w*,? ?")


def norm_ty(t):
    t = _LT.sub("", t).replace("{erased}", "")
    t = re.sub(r"&'?\s*", "&", t)
    t = t.replace("<>", "")
    t = re.sub(r"\b(?:std|alloc|core)::(?:\w+::)*", "", t)
    t = re.sub(r"\b(nom|nom_mpq|serde_json|serde)::(?:\w+::)*", r"\1::", t)
    return t.replace("s2protocol::", "").replace(", Global>", ">").strip()


# ---------- pretty printing (reports, debugging) ----------
def pl(p, b=None):
    s = "_%d" % p[0]
    if b is not None and p[0] in b.names: s += "'" + b.names[p[0]]
    for e in p[1:]:
        if e == "*": s = "(*%s)" % s
        elif isinstance(e, list):
            if e[0] == "f": s += "." + e[2]
            elif e[0] == "v": s += "@" + e[2]
            elif e[0] == "i": s += "[_%d]" % e[1]
            else: s += str(e)
        else: s += "?"
    return s


def op(o, b=None):
    if o[0] in "cm": return pl(o[1], b)
    if o[0] == "k":
        c = o[1]
        if "fn" in c: return "fn " + c["fn"]["rp"]
        for k in ("v", "s", "fl", "bytes"):
            if k in c: return repr(c[k])
        return c.get("d", "?")
    return "?"


def show(b, out=sys.stdout):
    print("fn", b.p, b.id, file=out)
    for i, bb in enumerate(b.bbs):
        if bb is None: continue
        print(" bb%d:" % i, file=out)
        for s in bb["s"]:
            r = s[1]
            if r[0] == "use": x = op(r[1], b)
            elif r[0] == "ref": x = "&" + ("mut " if r[2] else "") + pl(r[1], b)
            elif r[0] == "cast": x = "cast(%s,%s->%s)" % (op(r[2], b), r[3], r[4])
            elif r[0] == "bin": x = "%s(%s,%s)" % (r[1], op(r[2], b), op(r[3], b))
            elif r[0] == "un": x = "%s(%s)" % (r[1], op(r[2], b))
            elif r[0] == "discr": x = "discr " + pl(r[1], b)
            elif r[0] == "agg": x = "agg %s %s{%s}" % (r[2].split("::")[-1] or r[1], r[4], ", ".join(op(o, b) for o in r[5]))
            else: x = str(r)
            print("   %s = %s" % (pl(s[0], b), x), file=out)
        t = bb["t"]
        if t[0] == "call":
            print("   %s = %s(%s) -> %s" % (pl(t[3], b), op(t[1], b), ", ".join(op(a, b) for a in t[2]), t[4]), file=out)
        elif t[0] == "switch":
            print("   switch %s %s else %s" % (op(t[1], b), t[3], t[4]), file=out)
        elif t[0] == "assert":
            print("   assert %s==%s %s -> %s" % (op(t[1], b), t[2], t[3], t[4]), file=out)
        else: print("   ", t, file=out)


if __name__ == "__main__":
    F = Facts(sys.argv[1])
    for pat in sys.argv[2:]:
        for s in F.find(pat): show(F.body(s.id))
