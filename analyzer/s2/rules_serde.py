"""Values as text: what the derived writers write is what the derived readers read, and the shipped balance data fits the types that read it"""
import json, os, re
from facts import Body, norm_ty
from ctx import Missing, SPEC
import build
CHECKS = {}


def glue(F):
    """{type: {"serialize": body, "visit_str": {place: body}, ...}} of the derived (de)serialisation code"""
    out = {}
    for line in F.glue:
        b = Body(json.loads(line))
        m = re.match(r"(.*::_(?:#\d+)?::\{impl#\d+\})::(.*)$", b.id)
        i = next((x for x in F.impls if x["id"] == m.group(1)), None) if m else None
        if i is None: continue
        t = norm_ty(i["self"])
        out.setdefault(t, {})[("w" if i["trait"].split("<")[0].endswith("Serialize") else "r", m.group(2))] = b
    return out


def calls(b):
    for i, bb in enumerate(b.bbs):
        if bb is None or bb["t"][0] != "call" or bb["t"][1][0] != "k" or "fn" not in bb["t"][1][1]: continue
        yield i, bb["t"][1][1]["fn"]["rp"], bb["t"][2], bb["t"][3], bb["t"]


def const(o): return o[1].get("s", o[1].get("v")) if o[0] == "k" else None


class Flow:
    """where the values of a straight piece of glue come from: assignments, not paths"""
    def __init__(self, b):
        self.b = b; self.defs = {}; self.stop = set()
        for i, bb in enumerate(b.bbs):
            if bb is None: continue
            for s in bb["s"]: self.defs.setdefault(s[0][0], []).append((s[0][1:], s[1], i))
            t = bb["t"]
            if t[0] == "call": self.defs.setdefault(t[3][0], []).append((t[3][1:], ["call", t[1], t[2]], i))

    def place(self, p, seen=()):
        """origins of a place: [(kind, ...)], path of fields outwards"""
        l, proj = p[0], p[1:]
        path = [e for e in proj if e != "*"]
        if l <= self.b.nargs: return [("arg", l, tuple(map(tuple, path)))]
        if l in self.stop or l in seen or l not in self.defs: return [("local", l, tuple(map(tuple, path)))]
        out = []
        for q, r, i in self.defs[l]:
            k = r[0]
            src = None
            if k in ("use", "cast"):
                o = r[1] if k == "use" else r[2]
                if o[0] in "cm": src = o[1]
                else: out.append(("const", const(o), ())); continue
            elif k == "ref": src = r[1]
            elif k == "call":
                n = r[1][1]["fn"]["rp"] if r[1][0] == "k" and "fn" in r[1][1] else "?"
                if n.endswith("Try>::branch") and r[2][0][0] in "cm": src = r[2][0][1]
                else: out.append(("call", n, i, r[2])); continue
            elif k == "agg": out.append(("agg", r, i, tuple(map(tuple, path)))); continue
            else: out.append((k, i)); continue
            for o in self.place(src, seen + (l,)):
                out.append(o[:2] + (o[2] + tuple(map(tuple, path)),) if o[0] in ("arg", "local") else o)
        return out

    def origin(self, o): return self.place(o[1]) if o[0] in "cm" else [("const", const(o), ())]


def fields_of(o):
    """the fields of self a written value is"""
    return [e[2] for e in o[2] if e[0] == "f"] if o[0] == "arg" and o[1] == 1 else None


def written(F, b):
    """{variant or '': (how, {key: field}, [conditional keys], notes)}"""
    fl = Flow(b)
    succ = {}
    out = {}
    bad = []
    for i, n, args, dest, t in calls(b):
        s = n.split("::")[-1]
        if s == "serialize_field":
            k = const(args[1])
            l = fl.origin(args[2])
            f = [(e, [x[2] for x in o[2] if x[0] == "v"]) for o in l for e in [fields_of(o)] if e]
            if len(l) != 1 or len(f) != 1 or len(f[0][0]) != 1: bad.append("%s is written from something other than one field" % k); continue
            v = (f[0][1] or [""])[0]
            e = out.setdefault(v, ["fields", {}, [], None])
            if k in e[1]: bad.append("%s is written twice" % k)
            e[1][k] = f[0][0][0]
            e[2].append((i, k))
        elif s in ("serialize_newtype_variant", "serialize_newtype_struct"):
            l = fl.origin(args[-1])
            f = [(e, [x[2] for x in o[2] if x[0] == "v"]) for o in l for e in [fields_of(o)] if e]
            k = const(args[3]) if s.endswith("variant") else ""
            if len(l) != 1 or len(f) != 1: bad.append("%s is written from something other than its content" % (k or "the value")); continue
            out[(f[0][1] or [""])[0]] = ["one", {}, [], k]
        elif s == "serialize_unit_variant": pass
        elif s in ("serialize_struct_variant", "serialize_tuple_variant", "serialize_struct", "serialize_tuple_struct"): pass
        elif s in ("skip_field", "serialize_map", "collect_str", "serialize_entry", "collect_seq", "collect_map", "serialize_none", "serialize_some", "serialize_str", "serialize_unit"): bad.append("written by %s" % s)
    return out, bad


def variant_names(b):
    """{variant index: written name} of an enumeration's writer"""
    r = {}
    sw = b.bbs[0]["t"]
    for i, n, args, dest, t in calls(b):
        s = n.split("::")[-1]
        if s in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_struct_variant", "serialize_tuple_variant"): r.setdefault(i, (const(args[2]), const(args[3]), s))
    out = {}
    if sw[0] == "switch":
        for v, x in sw[3]:
            y = x; n = 0
            while y is not None and y not in r and n < 6:
                t = b.bbs[y]["t"]; n += 1
                y = t[1] if t[0] == "goto" else t[4] if t[0] in ("call", "assert") else None
            if y in r: out[v] = r[y]
    else:
        for x in r.values(): out[0] = x
    return out


def names_read(b):
    """({text: field token}, token of every other text)"""
    fl = Flow(b); out = {}; other = None
    by = {}
    for i, n, args, dest, t in calls(b):
        if not n.endswith("PartialEq for str>::eq"): continue
        k = next((const(a) for a in args if const(a) is not None), None)
        by[i] = (k, t[4])
    def token(x):
        for _ in range(8):
            bb = b.bbs[x]
            for s in bb["s"]:
                if s[1][0] == "agg" and s[1][4].startswith("__"): return s[1][4]
            t = bb["t"]
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]: return "!" + t[1][1]["fn"]["rp"].split("::")[-1]
            if t[0] != "goto": return None
            x = t[1]
    yes = set()
    for i, (k, x) in by.items():
        t = b.bbs[x]["t"]
        if t[0] != "switch": return None
        no = next((y for v, y in t[3] if v == 0), t[4])
        y = t[4] if no != t[4] else next((y for v, y in t[3] if v != 0), None)
        out[k] = token(y)
        z = no
        for _ in range(4):
            if z in by: break
            tt = b.bbs[z]["t"]
            if tt[0] == "call": break
            if tt[0] != "goto": break
            z = tt[1]
        if z not in by: other = token(no)
    return out, other


def ranked(names):
    """the tokens of a reader in the order they are numbered; skipped fields have none"""
    return sorted({x for x in names.values() if x and x.startswith("__field")}, key=lambda x: int(x[7:]))


def filled(F, b, ty, toks=()):
    """how one reader of named entries fills the value: ({token: slot}, {field: (slot, absent)}, variant)"""
    fl = Flow(b)
    store = {}
    # which slot the entry under each token goes into
    tok = None
    for i, bb in enumerate(b.bbs):
        if bb is None or bb["t"][0] != "switch": continue
        o = bb["t"][1]
        d = [r for q, r, _ in fl.defs.get(o[1][0], []) if r[0] == "discr"] if o[0] in "cm" else []
        if not d or b.names.get(d[0][1][0]) != "__key": continue
        for v, x in bb["t"][3]:
            seen = set(); st = [x]; slots = set()
            while st:
                y = st.pop()
                if y in seen: continue
                seen.add(y)
                for s in b.bbs[y]["s"]:
                    n = b.names.get(s[0][0], "")
                    if n.startswith("__field") and len(s[0]) == 1: slots.add(s[0][0])
                t = b.bbs[y]["t"]
                if slots: continue
                if t[0] == "goto": st.append(t[1])
                elif t[0] == "call": st.append(t[4])
                elif t[0] == "switch": st += [z for _, z in t[3]] + [t[4]]
            store[toks[v] if v < len(toks) else "__field%d" % v] = slots.pop() if len(slots) == 1 else None
    fl.stop = {x for x in store.values() if x is not None}
    # what each field is made from
    out = None; variant = None
    for i, bb in enumerate(b.bbs):
        if bb is None: continue
        for s in bb["s"]:
            r = s[1]
            if r[0] != "agg" or norm_ty(r[2]).split("<")[0] != ty.split("<")[0]: continue
            variant = r[4]; out = {}
            adt = next((a for a in F.adts.values() if norm_ty(a["id"]) == ty.split("<")[0]), None)
            vs = [v for v in adt["variants"] if v["name"] == r[4]] if adt else []
            fs = [f[0] for f in (vs[0] if vs else adt["variants"][0])["fields"]] if adt else []
            for f, o in zip(fs, r[5]):
                slot, absent = set(), set()
                l = o[1][0] if o[0] in "cm" else None
                for src in (fl.place(o[1]) if o[0] in "cm" else [("const", None)]):
                    if src[0] == "local" and src[1] in fl.stop: slot.add(src[1])
                    elif src[0] == "call" and src[1].endswith("missing_field"): absent.add("required %s" % const(src[3][0]))
                    elif src[0] == "call": absent.add("default " + src[1])
                    elif src[0] == "agg" and src[1][4] == "Some": continue
                    elif src[0] == "agg" and src[1][4] == "None": continue
                    else: absent.add("other " + str(src[0]))
                out[f] = (sorted(slot), sorted(absent))
    return store, out, variant


def made(b):
    """{token number: variant} of an enumeration's reader; struct variants in the order of their readers"""
    out = {}
    k = 0
    arms = {}
    for i, bb in enumerate(b.bbs):
        if bb is None or bb["t"][0] != "switch": continue
        d = [s[1] for s in bb["s"] if s[1][0] == "discr" and len(s[1][1]) >= 4]
        if d:
            for v, x in bb["t"][3]: arms[v] = x
            break
    if not arms:
        # a single alternative: there is nothing to choose
        for i, bb in enumerate(b.bbs):
            if bb is not None and bb["t"][0] == "switch" and any(v == 0 for v, _ in bb["t"][3]): arms[0] = next(x for v, x in bb["t"][3] if v == 0); break
    for v, x in arms.items():
        st, seen, how = [x], set(), None
        while st and how is None:
            y = st.pop(0)
            if y in seen: continue
            seen.add(y)
            bb = b.bbs[y]; t = bb["t"]
            for s in bb["s"]:
                if s[1][0] == "agg" and s[1][4] and not s[1][4].startswith(("__", "Ok", "Err", "Phantom", "Some", "None")) and s[1][1] == "adt": how = ("unit", s[1][4])
                elif s[1][0] == "agg" and s[1][4] == "None" and not s[1][2].endswith("Option"): how = ("unit", "None")
            if how: break
            if t[0] == "call":
                n = t[1][1]["fn"]["rp"].split("::")[-1] if "fn" in t[1][1] else ""
                if n == "struct_variant": how = ("fields", None); break
                if n == "map":
                    f = t[2][1]
                    if f[0] == "k" and "fn" in f[1]: how = ("one", f[1]["fn"]["rp"].split("::")[-1]); break
                st.append(t[4])
            elif t[0] == "goto": st.append(t[1])
            elif t[0] == "switch": st += [z for w, z in t[3] if w == 0]
        out[v] = how
    return out


def types(F): return {norm_ty(a["id"]): a for a in F.adts.values()}


LEFT_OUT = json.load(open(os.path.join(SPEC, "serde.json")))["left out"]
MAPKEY = re.compile(r"^(String|[iu](8|16|32|64|128|size)|char|bool)$")


def args_of(t):
    m = re.match(r"^[\w:]+<(.*)>$", t)
    if not m: return []
    out, d, cur = [], 0, ""
    for c in m.group(1):
        if c in "<([": d += 1
        elif c in ">)]": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    return out + [cur.strip()]


def text_type(t, A, G):
    """why a type cannot be read back from text, None if it can"""
    t = t.strip()
    if t in A: return None if t in G and ("w", "serialize") in G[t] else "%s is not written" % t
    if re.match(r"^([iu](8|16|32|64|128|size)|f32|f64|bool|char|String|chrono::\S*NaiveDateTime)$", t): return None
    m = re.match(r"^\[(.*); \d+\]$", t)
    if m: return text_type(m.group(1), A, G)
    if t.startswith("("):
        return next((w for x in args_of("T<%s>" % t[1:-1].rstrip(",")) if x for w in [text_type(x, A, G)] if w), None)
    h, a = t.split("<")[0], args_of(t)
    if h == "Option":
        if a[0].startswith("Option<") or a[0] == "()": return "%s: nothing inside something is written like nothing" % t
        return text_type(a[0], A, G)
    if h in ("Vec", "Box", "VecDeque", "HashSet", "BTreeSet", "Arc", "Rc"): return text_type(a[0], A, G)
    if h in ("HashMap", "BTreeMap"):
        if not MAPKEY.match(a[0]): return "%s: the keys of an object are text" % t
        return text_type(a[1], A, G)
    return "%s is not known to be read back" % t


def readers(F, g, t):
    """[(names read, others, token slots, fields, variant)] of the readers of named entries, outermost first"""
    outer, inner = {}, {}
    for (k, path), b in g.items():
        if k != "r": continue
        d = inner if "visit_enum::" in path else outer
        m = re.search(r"\{impl#(\d+)\}::(visit_\w+)$", path)
        if m: d[(int(m.group(1)), m.group(2))] = b
    return outer, inner


def where(b): return "%s:%s" % (b.file, b.line)


def same_type(F, ctx, t, a, g, A, G):
    w = g.get(("w", "serialize"))
    outer, inner = readers(F, g, t)
    if w is None: return
    strs = [b for (n, k), b in sorted(outer.items()) if k == "visit_str"]
    maps = [b for (n, k), b in sorted(outer.items()) if k == "visit_map"]
    enums = [b for (n, k), b in sorted(outer.items()) if k == "visit_enum"]
    newt = [b for (n, k), b in sorted(outer.items()) if k == "visit_newtype_struct"]
    wr, bad = written(F, w)
    ctx.functions.add(w.p)
    for x in bad:
        m = re.match(r"written by skip_field", x)
        if m and not skipped(F, w, a, maps, ctx, t): ctx.bad("written", t + "|" + x, "%s: an entry is left out in a case that reads back as something else" % t, where(w))
        elif not m: ctx.bad("written", t + "|" + x, "%s: %s" % (t, x), where(w))
    for v in a["variants"]:
        for f in v["fields"]:
            why = text_type(norm_ty(f[1]), A, G)
            ctx.check(why is None, "content", "%s|%s.%s" % (t, v["name"], f[0]), "%s.%s: %s" % (t, f[0], why), "%s:%s" % (a["file"], a["line"]))

    def fields(v, e, nb, mb):
        names, other = names_read(nb)
        toks, made_, variant = filled(F, mb, t, ranked(names))
        keys = {f: k for k, f in e[1].items()}
        if made_ is None: ctx.bad("read", t, "%s: what the reader makes cannot be told" % t, where(mb)); return
        for f in v["fields"]:
            n = f[0]; k = keys.get(n)
            c = "%s%s.%s" % (t, "::" + v["name"] if a["enum"] else "", n)
            if k is None and c in LEFT_OUT: ctx.ok("left out", c); continue
            if k is None: ctx.bad("field", c, "%s is not written" % c, where(w)); continue
            slot = toks.get(names.get(k))
            ok = slot is not None and made_.get(n, ([], 0))[0] == [slot]
            ctx.check(ok, "field", c, "%s is written as %r and %s" % (c, k, "no field is read from that" if names.get(k) in (None, "__ignore") else "read back into another field or not at all"), where(mb))

    if a["enum"]:
        if not strs or not enums: raise Missing("the reader of " + t)
        vn = variant_names(w)
        names, other = names_read(strs[0])
        m = made(enums[0])
        structs = [(i, b) for i, b in sorted((n, b) for (n, k), b in inner.items() if k == "visit_map")]
        istr = sorted((n, b) for (n, k), b in inner.items() if k == "visit_str")
        by = {}
        for i, b in structs:
            _, _, variant = filled(F, b, t)
            nb = [x for n, x in istr if n < i]
            by[variant] = (nb[-1] if nb else None, b)
        order = [filled(F, b, t)[2] for i, b in structs]
        for i, v in enumerate(a["variants"]):
            c = "%s::%s" % (t, v["name"])
            x = vn.get(int(v["discr"]) if not isinstance(v["discr"], int) else v["discr"], vn.get(i))
            if x is None: ctx.bad("alternative", c, "%s is not written" % c, where(w)); continue
            tok = names.get(x[1])
            toks = ranked(names)
            q = m.get(toks.index(tok)) if tok in toks else None
            if q and q[0] == "fields":
                j = [k for k in sorted(m) if m[k] and m[k][0] == "fields"].index(toks.index(tok))
                q = ("fields", order[j] if j < len(order) else None)
            shape = {"serialize_unit_variant": "unit", "serialize_newtype_variant": "one", "serialize_struct_variant": "fields", "serialize_tuple_variant": "fields"}[x[2]]
            ctx.check(q == (shape, v["name"]), "alternative", c, "%s is written as %r (%s) and read back as %s" % (c, x[1], shape, "%s (%s)" % (q[1], q[0]) if q else "nothing"), where(enums[0]))
            if shape == "fields":
                e = wr.get(v["name"])
                if e is None or v["name"] not in by or by[v["name"]][0] is None: ctx.bad("alternative", c + "|fields", "the fields of %s are not written or read" % c, where(w)); continue
                fields(v, e, *by[v["name"]])
        return
    v = a["variants"][0]
    if "" in wr and wr[""][0] == "one":
        ctx.check(len(v["fields"]) == 1 and bool(newt), "field", t + ".0", "%s is written as its content and not read so" % t, where(w)); return
    if not strs or not maps:
        if not v["fields"]: ctx.ok("field", t); return
        raise Missing("the reader of " + t)
    fields(v, wr.get("", ["fields", {}, [], None]), strs[0], maps[-1])


def skipped(F, w, a, maps, ctx, t):
    """entries left out are those that read back the same when absent"""
    if not maps: return False
    _, made_, _ = filled(F, maps[-1], t)
    fl = Flow(w)
    ty = {f[0]: norm_ty(f[1]) for f in a["variants"][0]["fields"]}
    tests = {}
    for i, n, args, dest, tm in calls(w):
        if n.endswith(("::is_none", "::is_empty")):
            for o in fl.origin(args[0]):
                f = fields_of(o)
                if f: tests[f[0]] = n.split("::")[-1]
    keys = {f: k for k, f in written(F, w)[0].get("", ["", {}])[1].items()}
    for i, n, args, dest, tm in calls(w):
        if not n.endswith("skip_field"): continue
        k = const(args[1])
        f = next((x for x, y in keys.items() if y == k), None)
        ab = made_.get(f, ([], []))[1] if made_ else []
        if tests.get(f) == "is_none" and ty.get(f, "").startswith("Option<") and all(x.startswith("required") or "Default>::default" in x for x in ab): continue
        if tests.get(f) == "is_empty" and len(ab) == 1 and "Default>::default" in ab[0]: continue
        return False
    return True


def s01(ctx):
    F = ctx.F; A = types(F); G = glue(F)
    for t in sorted(G):
        if t not in A: continue
        same_type(F, ctx, t, A[t], G[t], A, G)
    ctx.count("types written and read", len(G))
    hand = sorted(norm_ty(i["self"]) for i in F.impls if re.match(r"serde(_core)?::(ser::|de::)?(Serialize|Deserialize)\b", i["trait"]) and not i["exp"].startswith("serde_derive"))
    for t in hand: ctx.bad("derived", t, "%s is written or read by hand-written code" % t)
    ctx.atleast("field", 300, "fields of the written types")
    ctx.atleast("alternative", 60, "alternatives of the written enumerations")


CHECKS["S01"] = s01
ROOT = "game_events::ability::balance_data::VersionedBalanceUnit"
INT = re.compile(r"^([iu])(8|16|32|64|128|size)$")


def shape(F, A, G):
    """{type: {key: (field, type, what absence means)}} of the types the balance data is read into"""
    out, st = {}, [ROOT]
    while st:
        t = st.pop()
        if t in out or t not in A: continue
        g = G.get(t)
        if g is None: raise Missing("the reader of " + t)
        outer, inner = readers(F, g, t)
        nb = [b for (n, k), b in sorted(outer.items()) if k == "visit_str"]
        mb = [b for (n, k), b in sorted(outer.items()) if k == "visit_map"]
        if not nb or not mb: raise Missing("the reader of " + t)
        names, _ = names_read(nb[0])
        toks, made_, _ = filled(F, mb[-1], t, ranked(names))
        ty = {f[0]: norm_ty(f[1]) for f in A[t]["variants"][0]["fields"]}
        d = {}
        for k, tok in names.items():
            slot = toks.get(tok)
            for f, (sl, ab) in (made_ or {}).items():
                if slot is not None and sl == [slot]: d[k] = (f, ty[f], ab)
        out[t] = d
        for f, x, _ in d.values(): st += re.findall(r"[\w:]+", x)
    return out


def fits(v, t, S, report, path):
    if t.startswith("Option<"):
        if v is not None: fits(v, args_of(t)[0], S, report, path)
        return
    if t.startswith("Vec<"):
        if not isinstance(v, list): report("value", path, "not a list for " + t); return
        for x in v: fits(x, args_of(t)[0], S, report, path)
        return
    m = INT.match(t)
    if m:
        n = 64 if m.group(2) == "size" else int(m.group(2))
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if m.group(1) == "i" else (0, (1 << n) - 1)
        if isinstance(v, bool) or not isinstance(v, int) or not lo <= v <= hi: report("value", path, "%r is not a %s" % (v, t))
        return
    if t in ("f32", "f64"):
        if isinstance(v, bool) or not isinstance(v, (int, float)): report("value", path, "%r is not a %s" % (v, t))
        return
    if t == "bool":
        if not isinstance(v, bool): report("value", path, "%r is not a bool" % (v,))
        return
    if t == "String":
        if not isinstance(v, str): report("value", path, "%r is not text" % (v,))
        return
    if t not in S: report("value", path, "nothing is known about " + t); return
    if not isinstance(v, dict): report("value", path, "not an object for " + t); return
    d = S[t]
    for k in v:
        if k not in d: report("dropped", t + "|" + k, "%s: the files have %r and nothing reads it" % (t, k))
        else: fits(v[k], d[k][1], S, report, t + "|" + k)
    report.seen.setdefault(t, set()).update(v)
    for k, (f, ty, ab) in d.items():
        if k in v: continue
        if any(x.startswith("required") for x in ab) and not ty.startswith("Option<"): report("absent", t + "|" + k, "%s: %r is required and a file does not have it" % (t, k))


def snake(k): return re.sub(r"(?<=[a-z0-9])([A-Z])", lambda m: "_" + m.group(1).lower(), k.lstrip("@")).lower()


def s02(ctx):
    F = ctx.F; A = types(F); G = glue(F)
    S = shape(F, A, G)
    root = os.path.join(build.REPO, "assets", "BalanceData")
    seen = {}
    bad = {}

    def report(kind, key, msg): bad.setdefault((kind, key), [msg, cur, 0])[2] += 1
    report.seen = seen
    n = 0
    builds = set()
    for d in sorted(os.listdir(root)):
        p = os.path.join(root, d)
        if not os.path.isdir(p): continue
        if not re.match(r"^\d+$", d) or int(d) >= 1 << 32: ctx.bad("build", d, "the directory %s is not a build number" % d); continue
        builds.add(d)
        for f in sorted(os.listdir(p)):
            cur = "assets/BalanceData/%s/%s" % (d, f)
            try: v = json.load(open(os.path.join(p, f)))
            except ValueError as e: ctx.bad("file", cur, "%s is not JSON: %s" % (cur, e), cur); continue
            before = len(bad)
            fits(v, ROOT, S, report, ROOT)
            if isinstance(v, dict) and f != str(v.get("@id")) + ".json": report("name", cur, "the file is named %s and the unit in it %s" % (f, v.get("@id")))
            n += 1
            if len(bad) == before: ctx.ok("file", cur)
    for (kind, key), (msg, where_, times) in sorted(bad.items()): ctx.bad(kind, key, "%s (%d times, first in %s)" % (msg, times, where_), where_)
    spec = json.load(open(os.path.join(SPEC, "serde.json")))["named otherwise"]
    for t, d in sorted(S.items()):
        for k, (f, ty, ab) in sorted(d.items()):
            c = "%s.%s" % (t, f)
            ctx.check(snake(k) == f or spec.get(c) == k, "attribute", c, "%s is read from the attribute %r" % (c, k), A[t]["file"])
            if t in seen: ctx.check(k in seen[t], "present", c, "%s is read from %r, which no shipped file has" % (c, k), A[t]["file"])
            for x in ab:
                if not x.startswith("required") and not re.search(r"Default>::default$", x): ctx.bad("absent", c, "%s is %s where the file does not have it" % (c, x), A[t]["file"])
    ctx.count("files", n); ctx.count("builds", len(builds)); ctx.count("types", len(S))
    ctx.atleast("file", 5000, "shipped balance data files")
    ctx.atleast("attribute", 80, "attributes")


CHECKS["S02"] = s02
