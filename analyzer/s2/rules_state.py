"""The game state: what each event changes in it, in which order, and what is reported back."""
import json, os, re
from ctx import RULES, Missing, SPEC
from rules_decode import *
from canon import Canon, short, IDENT
from rules_export import loops, text_of

TR = "tracker_events::state::handle_tracker_event"
GA = "game_events::state::handle_game_event"
CHECKS = {}
# the data read out of an event or a table, whose own meaning is decided elsewhere
LEAF = re.compile(r"get_player_name_by|get_unit_sized_color$|user_color$|get_indexed_ability|unit_tag|to_unit_positions_vec|should_skip")
INSIDE = re.compile(r"(tracker_events::state|game_events::state|state)::")
# they put together or take apart a value, and can be called or written out
SIMPLE = re.compile(r"^common::Vec3D::(new|x|y|z)$|coords::\w+::new$|SC2EventIteratorItem::new$")
READS = re.compile(r"::(get_mut|index_mut|iter_mut|values_mut|as_mut|deref_mut|iter|get|index|next)$|^\$iternext$|fmt|tracing|^\$iter")


def state_flat(F, sid, given=None, inside=INSIDE, deep=None):
    from flat import Flattener
    from thread import thread
    base = base_functions()
    def stop(i, p):
        s = F.stubs.get(i)
        if s is None or s.exp or F.impl_exp(i): return True
        if deep is not None and deep.match(p): return False
        if LEAF.search(p): return True
        if SIMPLE.search(p): return False
        if inside.match(p): return False
        return p in base
    A = Flattener(F, stop=stop, max_blocks=60000); A.mark_copies = True
    fl = A.flatten(sid)
    fl.given = given; fl.expand_default = True
    return fl, thread(F, fl, grow=4.0)


def param_of(fl, ty):
    """the parameter of this type"""
    r = [i for i in range(1, fl.nargs + 1) if fl.locals[i].split("::")[-1] == ty]
    return r[0] if len(r) == 1 else None


def variants_of_enum(F, name):
    r = [a for k, a in F.adts.items() if k.split("::")[-1] == name and len(a["variants"]) > 1]
    if not r: raise Missing("enum %s is not there" % name)
    return [q["name"] for q in r[0]["variants"]]


def given_for(k, i, kind):
    """the event is this variant, and if it updates a control group, in this way"""
    def given(x):
        if x.op == "param" and x.a[0] == k: return i
        if kind is not None and x.op == "fld" and x.a[1] == "m_control_group_update":
            y = x
            while y.op in ("fld", "var"): y = y.a[0]
            if y.op == "param" and y.a[0] == k: return kind
        return None
    return given


def cases(F):
    """every variant of both event streams, control group updates by kind"""
    out = []
    for top, en in ((TR, "ReplayTrackerEvent"), (GA, "ReplayGameEvent")):
        for i, v in enumerate(variants_of_enum(F, en)):
            if v == "ControlGroupUpdate" and top == GA:
                for j, w in enumerate(variants_of_enum(F, "GameEControlGroupUpdate")): out.append((top, "%s.%s" % (v, w), i, j))
            else: out.append((top, v, i, None))
    return out


def place(C, x):
    """the place itself, without what was done to it before"""
    x = C.find(x)
    if x.op in ("mut", "upd"): return place(C, x.a[0])
    if x.op == "phi" and x in C.v.phis:
        init, rec = C.back(x)
        c = {place(C, o) for o in (init if rec else C.v.phis[x]).values()}
        return c.pop() if len(c) == 1 else x
    if x.op in ("fld", "var", "at", "elem", "lookup", "slice"): return mk(x.op, place(C, x.a[0]), *x.a[1:])
    return x


def payload(p):
    """the option whose content the place is"""
    if p.op == "fld" and p.a[1] == "0" and p.a[0].op == "var" and p.a[0].a[1] == "Some" and p.a[0].a[0].op == "fld": return p.a[0].a[0]
    return None


def root(x):
    while x.op in ("fld", "var", "at", "elem", "lookup", "slice", "mut", "upd"): x = x.a[0]
    return x


PATH = re.compile(r"\.\w+|@\w+|\?")


def balanced(s, i):
    """the position after the bracket that opens at i"""
    d = 0
    for j in range(i, len(s)):
        if s[j] in "([{": d += 1
        elif s[j] in ")]}":
            d -= 1
            if d == 0: return j + 1
    return len(s)


def spots(s):
    """the places of the parameters that a text mentions, with any element standing for all of them"""
    out = set()
    for m in re.finditer(r"\$\d+", s):
        p, i, keys = m.group(), m.end(), False
        while i < len(s):
            if s.startswith(".get(", i):
                i = balanced(s, i + 4); keys = True
                if s.startswith("?", i): i += 1; keys = False
                p += "[*]"
                if keys: break
                continue
            if s[i] == "[": i = balanced(s, i); p += "[*]"; continue
            k = PATH.match(s, i)
            if not k: break
            if k.group()[0] == ".": p += k.group()
            i = k.end()
        out.add((p, keys))
    return out


def head(s):
    s = re.sub(r"^(each )+", "", s)
    m = re.match(r"\$\d+", s)
    if not m: return s
    p, i = m.group(), m.end()
    while i < len(s):
        if s[i] == "[": i = balanced(s, i); p += "[*]"; continue
        if s.startswith(".get(", i): i = balanced(s, i + 4); p += "[*]"; continue
        k = PATH.match(s, i)
        if not k: break
        if k.group()[0] == ".": p += k.group()
        i = k.end()
    return p


def keys_of(s):
    """the keys of the elements a place is reached by"""
    out, i = [], 0
    while i < len(s):
        if s[i] == "[": j = balanced(s, i); out.append(s[i + 1:j - 1]); i = j
        else: i += 1
    return out


def touches(p, q):
    """one place is part of the other"""
    a, b = re.findall(r"[^.\[\]]+|\[\*\]", p), re.findall(r"[^.\[\]]+|\[\*\]", q)
    n = min(len(a), len(b))
    return a[:n] == b[:n]


KIND = [(re.compile(r"(::|^)(append|extend|extend_from_slice)$"), "append"), (re.compile(r"(::|^)sort(_unstable)?$"), "sort"), (re.compile(r"^\$retain_remove$"), "take out"),
        (re.compile(r"HashMap.*::insert$|BTreeMap.*::insert$"), "insert"), (re.compile(r"HashMap.*::remove(_entry)?$"), "remove")]


def kind(n):
    for r, k in KIND:
        if r.search(n): return k
    return short(n).split("::")[-1]


# a user has this many groups: SC2UserState::new makes them (a leaf of its own), nothing else adds or removes one
WHOLE = {"control_groups": 11}


class Report:
    """what a function changes in its parameters, in which order, and what it returns"""

    def __init__(self, C, params=(1,), rounds=False):
        self.C, self.params = C, set(params)
        C.whole = WHOLE; C.spread = True
        v = C.v
        if rounds:
            # in each round of a loop a place holds what it holds at the start of the round
            for x, ops in v.phis.items():
                init, rec = C.back(x)
                i = {C.find(o) for o in init.values()}
                if rec and len(i) == 1:
                    q = i.pop()
                    if root(q).op == "param" and place(C, q) is q: C.rep[x] = q
        self.forward()
        self.src = {}
        items = []                                  # (what, place, arguments, b, n)
        for b in v.rpo:
            for n, e in enumerate(v.ev[b]):
                if e[0] == "store": self.src[(b, n)] = v.where(e[3]); self.item(items, ":=", e[1], [e[2]], b, n)
                elif e[0] == "call" and len(e) > 7 and e[7] and not READS.search(e[1]):
                    self.src[(b, n)] = v.where(e[4])
                    for i in e[7]:
                        if e[1].endswith("::clear") and len(e[2]) == 1: self.item(items, ":=", e[6][i], [mk("newcoll")], b, n)
                        else: self.item(items, kind(e[1]), e[6][i], [q for j, q in enumerate(e[2]) if j != i], b, n)
        self.rows = []
        groups = {}
        self.inserted = {}
        for w, p, args, b, n in items:
            f = C.G.at[b]
            C.memo = {}; C.care = f
            at = C.val(p)
            if w == "insert" and len(args) == 2:
                q = mk("at", p, args[0])
                at = C.val(q)
                v1 = C.find(args[1])
                while v1.op == "call" and len(v1.a[1]) == 1 and IDENT.search(v1.a[0]): v1 = C.find(v1.a[1][0])
                if v1.op in ("agg", "upd"): self.inserted[v1] = q
                groups.setdefault(("insert", at, ""), []).append((b, n, f, None))
            if w == ":=" or w == "insert" and len(args) == 2:
                out = []
                some = payload(p)
                C.rows(b, args[-1], f, "", out)
                if w == ":=": out = [(path, self.new(c, at, path, t), t) for path, c, t in out]
                if some is not None:
                    at = C.val(some)
                    out = [(path, c, t if path else "Some(%s)" % t) for path, c, t in out]
                for path, c, t in out:
                    q = at + ("" if not path else path if path.startswith("::") else "." + path)
                    groups.setdefault((":=", q, ""), []).append((b, n, c, t))
            else:
                t = ", ".join(C.val(q) for q in args if isinstance(q, T))
                # adding the elements of a list one by one
                if w == "push" and t.startswith("each "): w, t = "append", t[5:]
                groups.setdefault((w, at, t), []).append((b, n, f, None))
        C.care = 1; C.memo = {}
        for k, g in groups.items():
            tags = {}
            if k[0] == ":=": g = self.last(g)
            for x in g: tags.setdefault((self.loop(x[0]), self.layer(x, g)), []).append(x)
            for (tag, _), l in tags.items(): self.row(k, tag, l)
        self.rows = [r for r in self.rows if not re.search(r"(:=|if) never", r["text"])]
        self.rows.sort(key=lambda r: r["text"])

    def new(self, c, at, path, t):
        """the condition under which the place did not hold the value already"""
        C, G = self.C, self.C.G
        m = re.match(r"(Some\()?(-?\d+)\)?$", t)
        if path or not (t == "None" or m): return c
        g, q = G.excl(c), 0
        if isinstance(g, int): return c
        for a in C.b.support(g):
            if a[0] != "val": continue
            k, i = C.named(a)
            if t == "None" and k[:2] == ("alt", at): q = G.formula(a[1], 0)
            elif m and k[:2] == ("num", at + ("?" if m.group(1) else "")) and i == int(m.group(2)): q = G.formula(a[1], int(m.group(2)))
        return c if isinstance(q, int) else G.excl(C.b.AND(g, C.b.NOT(q)))

    def loop(self, b): return loops(self.C, b)

    def item(self, items, w, p, args, b, n):
        p = place(self.C, p)
        r = self.roots(p)
        if not any(q.op == "param" and q.a[0] in self.params for q in r) or p.op == "param": return
        items.append((w, p, args, b, n))

    def roots(self, p, seen=()):
        """what the place is part of"""
        p = self.C.find(root(p))
        if p.op == "phi" and p in self.C.v.phis:
            if p in seen: return set()
            out = set()
            for o in self.C.v.phis[p].values(): out |= self.roots(o, seen + (p,))
            return out
        return {p}

    def forward(self):
        """the loops"""
        v = self.C.v
        self.loops = {}
        for h in v.rpo:
            if any(v.pos[p] >= v.pos[h] for p in v.preds[h]): self.loops[h] = self.C.cycle(h)
        self.reach = {}

    def later(self, b, stop):
        """the blocks that come after b without another round of these loops"""
        k = (b, stop)
        if k not in self.reach:
            seen, st = set(), [b]
            while st:
                for s in self.C.S[st.pop()]:
                    if s not in seen and s not in stop: seen.add(s); st.append(s)
            self.reach[k] = seen
        return self.reach[k]

    def before(self, x, y):
        """x can come before y in the same round of the loops around both"""
        if x[0] == y[0]: return x[1] < y[1]
        stop = frozenset(h for h, c in self.loops.items() if x[0] in c and y[0] in c)
        return y[0] in self.later(x[0], stop)

    def layer(self, x, g):
        around = {h for h, c in self.loops.items() if x[0] in c}
        b = [y for y in g if self.before(y, x) and (self.before(x, y) or y[3] is None or around != {h for h, c in self.loops.items() if y[0] in c})]
        return 1 + max((self.layer(y, b) for y in b), default=0)

    def last(self, g):
        """of several values given to the same place one after the other, the last one counts"""
        out = []
        for x in g:
            around = {h for h, c in self.loops.items() if x[0] in c}
            f = x[2]
            for y in g:
                if x[:2] == y[:2] or around != {h for h, c in self.loops.items() if y[0] in c}: continue
                if self.before(x, y) and not self.before(y, x): f = self.C.b.AND(f, self.C.b.NOT(y[2]))
            f = self.C.G.excl(f)
            if not (isinstance(f, int) and f == 0): out.append((x[0], x[1], f, x[3]))
        return [x for x in out]

    def row(self, k, tag, l):
        C = self.C
        w, at, args = k
        cond = 0
        for b, n, f, x in l: cond = C.b.OR(cond, f)
        C.care = 1; C.memo = {}
        ct = C.condition(cond, 1)
        if w == "take out": ct = ct.replace("(any ", "(each ").replace(" any ", " each ")
        tag = " [walk:%s]" % tag if tag else ""
        vals = {x for b, n, f, x in l} if w == ":=" else set()
        if w == ":=": text = "%s := %s%s" % (at, C.tabulate([(f, x) for b, n, f, x in l], 1), tag)
        else: text = "%s: %s(%s)%s%s" % (at, w, args, " if " + ct if ct else "", tag)
        reads = self.inner(at) | spots(args)
        for x in vals: reads |= spots(x)
        self.rows.append({"place": at, "text": text, "reads": reads, "cond": spots(ct), "sites": sorted({(b, n) for b, n, f, x in l}), "where": sorted({self.src[(b, n)] for b, n, f, x in l})[0], "kind": w, "values": vals})

    def inner(self, at):
        """places read to find the place"""
        h = head(at)
        return {q for q in spots(at) if q[0] != h}

    def order(self):
        """pairs of changes whose order matters, in the order they come"""
        out = []
        for i, a in enumerate(self.rows):
            for c in self.rows[i + 1:]:
                if a["sites"] == c["sites"]: continue
                if self.apart(a, c): continue
                if not (self.depends(a, c) or self.depends(c, a) or touches(head(a["place"]), head(c["place"]))): continue
                ab = any(self.before(x, y) for x in a["sites"] for y in c["sites"])
                ba = any(self.before(y, x) for x in a["sites"] for y in c["sites"])
                if ab: out.append("%s -- then -- %s" % (self.brief(a), self.brief(c)))
                if ba: out.append("%s -- then -- %s" % (self.brief(c), self.brief(a)))
        return sorted(set(out))

    def apart(self, a, c):
        """two different single elements, or the same value put into both"""
        ka, kc = keys_of(a["place"]), keys_of(c["place"])
        if ka != kc and len(ka) == len(kc) and not any("each " in k or k.startswith("..") for k in ka + kc) and not any(r["place"].startswith("each ") for r in (a, c)): return True
        return a["kind"] == c["kind"] == ":=" and a["values"] == c["values"] and a["place"].rsplit(".", 1)[-1] == c["place"].rsplit(".", 1)[-1] and len(a["values"]) == 1

    def brief(self, r): return r["place"] + " " + r["kind"]

    def depends(self, a, c):
        """c reads what a changes"""
        p = head(a["place"])
        shared = a["cond"] & c["cond"]
        for q, keys in c["reads"] | (c["cond"] - shared):
            if keys and a["kind"] == ":=": continue
            if touches(p, q): return True
        return False

    def copies(self, whole):
        """copies of a record taken before it is changed"""
        C, out = self.C, set()
        for b in C.v.rpo:
            for n, e in enumerate(C.v.ev[b]):
                if e[0] != "call" or not (e[1] == "$clone" or e[1].endswith("::clone")) or len(e[2]) != 1: continue
                C.memo = {}; C.care = C.G.at[b]
                t = C.val(e[2][0])
                C.care = 1; C.memo = {}
                if not whole.match(head(t)): continue
                for r in self.rows:
                    if r["place"].startswith(t + ".") and any(self.before((b, n), s) for s in r["sites"]): out.add("%s is copied before it is changed at .%s" % (t, r["place"][len(t) + 1:]))
        return sorted(out)

    def result(self):
        C = self.C
        old = dict(C.rep)
        for x, q in self.inserted.items(): C.rep[x] = q
        C.memo = {}; C.sharp = C.lists = True
        t = C.result_table()
        C.rep = old; C.memo = {}; C.sharp = C.lists = False
        return t


def state_job(F, names, key):
    top, name, i, j = key
    sid = ident(F, top)
    en = "ReplayTrackerEvent" if top == TR else "ReplayGameEvent"
    k = 3 if top == TR else 4
    fl, v = state_flat(F, sid, given_for(k, i, j))
    if param_of(fl, en) != k: raise Missing("%s no longer takes the event as parameter %d" % (top, k))
    C = Canon(F, fl, v); C.narrow = True
    R = Report(C)
    out = {"effects": [(r["place"], r["text"], r["where"]) for r in R.rows], "order": R.order(), "copies": R.copies(re.compile(r"\$1\.units\[\*\]$")), "result": R.result(), "blocks": len(v.rpo)}
    out["tags"] = Tags(Canon(F, fl, v)).obligations()
    return out


NEXT = "<state::SC2EventIterator as core::iter::traits::iterator::Iterator>::next"
NT = "TrackertEventIteratorState::get_next_event($1.tracker_iterator_state, $1.sc2_state.init_data.version)"
NG = "GameEventIteratorState::get_next_event($1.game_iterator_state, $1.sc2_state.init_data.version, $1.sc2_state.user_state, $1.sc2_state.balance_units)"
PENDING = {"{None -> %s; Some -> $1.next_tracker_event} by $1.next_tracker_event" % NT: "TRACKER", "{None -> %s; Some -> $1.next_game_event} by $1.next_game_event" % NG: "GAME"}
HANDLE = re.compile(r"::handle_transition_to_next_event$")


def next_job(F, names, key):
    """the merged stream: one round of the iterator"""
    sid = ident(F, NEXT)
    fl, v = state_flat(F, sid, None, re.compile(r"state::SC2Event|filters::"))
    C = Canon(F, fl, v); C.narrow = True
    kinds = variants_of_enum(F, "SC2EventType")
    C.deep = True; C.alias = dict(PENDING)
    C.facts = {"TRACKER?": kinds.index("Tracker"), "GAME?": kinds.index("Game")}
    Report(C, (1,), True)                           # places of the loop
    calls = [(b, e) for b in v.rpo for e in v.ev[b] if e[0] == "call" and HANDLE.search(e[1])]
    if len(calls) != 1: raise Missing("events are applied to the state at %d places of the iterator" % len(calls))
    b, e = calls[0]
    out = {}
    C.memo = {}; C.care = C.G.at[b]
    out["event"] = C.val(e[2][1])
    C.names = {C.find(e[2][1]): "EVENT", C.find(e[3]): "ITEM"}
    C._plain = {}
    t, g = "ITEM.event_type@Tracker.tracker_loop", "ITEM.event_type@Game.game_loop"
    times = ("{Game -> %s; Tracker -> %s} by ITEM.event_type" % (g, t), "{%d -> %s; other -> %s} by ITEM.event_type" % (kinds.index("Tracker"), t, g), "{%d -> %s; other -> %s} by ITEM.event_type" % (kinds.index("Game"), g, t))
    for x in list(v.phis):
        if not isinstance(x.a[0], int) or x.a[0] not in C.G.at: continue
        C.memo = {}; C.care = C.G.at[x.a[0]]; C.sharp = True
        rows = []
        try: C.rows(None, x, C.care, "", rows)
        except RecursionError: continue
        if len(rows) == 2 and {t for _, _, t in rows} == {"ITEM.event_type@Game.game_loop", "ITEM.event_type@Tracker.tracker_loop"}:
            if C.tabulate([(c, t) for _, c, t in rows], C.care) in times: C.names[x] = "TIME"
    C.sharp = False; C._plain = {}
    C.care = 1; C.memo = {}
    at = {}
    for x in v.rpo:
        for q in C.b.support(C.G.at[x]):
            k, i = C.named(q)
            if k[1] in ("TRACKER", "GAME"): at.setdefault(k[1], set()).add((q, i))
    def given(t, g):
        f = 1
        for n, yes in (("TRACKER", t), ("GAME", g)):
            for q, i in at.get(n, ()):
                y = C.b.var(q)
                f = C.b.AND(f, y if (i == 1) == yes else C.b.NOT(y))
        return f
    unset = 1
    for x in v.rpo:
        for q in C.b.support(C.G.at[x]):
            k, i = C.named(q)
            if k[1] == "$1.filters": unset = C.b.AND(unset, C.b.var(q) if i == 0 else C.b.NOT(C.b.var(q)))
    out["cases"] = {}
    for name, t, g in (("both pending", True, True), ("only a tracker event pending", True, False), ("only a game event pending", False, True), ("none pending", False, False)):
        care = given(t, g)
        C.given = care
        R = Report(C, (1,), True)
        C.memo = {}
        out["cases"][name] = {"effects": [(r["place"], r["text"], r["where"]) for r in R.rows], "order": R.order(), "result": R.result()}
        C.given = C.b.AND(care, unset); C.memo = {}
        out["cases"][name]["unfiltered"] = R.result()
    return out


def ident(F, n):
    s = F.by_pretty.get(n)
    if not s: raise Missing("%s is not there" % n)
    s = s[0] if isinstance(s, list) else s
    return getattr(s, "id", s)



# ---------------------------------------------------------------- tags and indexes
FIELD_KIND = {"unit_tag_index": "index", "creator_unit_tag_index": "index", "killer_unit_tag_index": "index", "creator_tag_index": "index", "tag_index": "index",
              "m_tag": "tag", "m_add_unit_tags": "tags", "control_groups": "groups", "first_unit_index": "index"}
INNER = {"groups": "tags", "tags": "tag", "indexes": "index"}
OUTER = {"tag": "tags", "index": "indexes", "tags": "groups"}


class Tags:
    """which values are unit tags and which are unit indexes"""

    def __init__(self, C): self.C = C; self.memo = {}

    def kind(self, x):
        x = self.C.find(x)
        if x not in self.memo: self.memo[x] = None; self.memo[x] = self._kind(x)
        return self.memo[x]

    def join(self, l):
        l = {k for k in l if k not in ("any", None)}
        return l.pop() if len(l) == 1 else ("mixed" if l else "any")

    def _kind(self, x):
        o, a = x.op, x.a
        if o in ("const", "newcoll", "default"): return "any"
        if o == "cast": return self.kind(a[0])
        if o == "call":
            if a[0].endswith("::unit_tag_index"): return "index"
            if a[0].endswith("::unit_tag"): return "tag"
            if len(a[1]) == 1 and isinstance(a[1][0], T): return self.kind(a[1][0])
            return None
        if o == "fld":
            if a[1] in FIELD_KIND: return FIELD_KIND[a[1]]
            if a[1] == "tag": return "index" if self.positions(a[0]) else "tag"
            if a[0].op == "var": return self.kind(a[0].a[0])
            return None
        if o == "var": return self.kind(a[0])
        if o in ("elem", "at", "iternext", "lookup"): return INNER.get(self.kind(a[0]))
        if o == "agg":
            if a[2] in ("Some", "Ok") or a[0] in ("array",): 
                k = self.join([self.kind(q) for q in a[4]])
                return k if a[2] else OUTER.get(k, k)
            return "any" if a[2] == "None" else None
        if o == "mut":
            k = self.kind(a[0])
            if k in ("any", None) and re.search(r"::(push|append|extend\w*)$", a[1]):
                q = self.join([self.kind(y) for y in a[2] if isinstance(y, T)])
                return OUTER.get(q, q) if a[1].endswith("::push") else q
            return k
        if o in ("upd", "slice"): return self.kind(a[0])
        if o == "phi" and x in self.C.v.phis: return self.join([self.kind(q) for q in self.C.v.phis[x].values()])
        return None

    def positions(self, x):
        x = self.C.find(x)
        while x.op in ("elem", "var", "fld", "iternext", "mut"): x = self.C.find(x.a[0])
        return x.op == "call" and "to_unit_positions" in x.a[0]

    def units(self, x):
        x = self.C.find(x)
        while x.op in ("mut", "upd"): x = self.C.find(x.a[0])
        if x.op == "phi" and x in self.C.v.phis: return any(self.units(q) for q in self.C.v.phis[x].values() if q is not x and q.op != "phi")
        return x.op == "fld" and x.a[1] == "units"

    def obligations(self):
        """(kind of rule, text, holds)"""
        C, v, out, seen = self.C, self.C.v, [], set()
        def name(q): return C.val(q)
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] == "call":
                    n, args = e[1], e[6] if len(e) > 6 else e[2]
                    if n.endswith("::unit_tag_index"): out.append(("reduced", name(e[2][0]), self.kind(e[2][0]) == "tag"))
                    if re.search(r"HashMap.*::(insert|remove|remove_entry|contains_key|get|get_mut|entry|index)$", n) and len(e[2]) >= 2 and self.units(args[0]):
                        out.append(("unit key", "%s(%s)" % (n.split("::")[-1], name(e[2][1])), self.kind(e[2][1]) == "index"))
                    if re.search(r"::contains$", n) and len(e[2]) == 2 and INNER.get(self.kind(e[2][0])) in ("tag", "index"):
                        out.append(("compared", name(e[2][1]), self.kind(e[2][1]) in (INNER[self.kind(e[2][0])], "any")))
                    if re.search(r"::(push|append|extend\w*)$", n) and len(e[2]) == 2 and self.kind(e[2][0]) in INNER:
                        k = self.kind(e[2][0]); w = self.kind(e[2][1])
                        out.append(("grouped", name(e[2][1]), w in ("any", INNER[k] if n.endswith("::push") else k)))
                if e[0] == "store":
                    k = self.kind(e[1])
                    if k in ("tags", "tag", "index"): out.append(("grouped" if k == "tags" else "recorded", name(e[2]), self.kind(e[2]) in (k, "any")))
                for t in e[1:]:
                    for q in (t if isinstance(t, tuple) else (t,)):
                        if not isinstance(q, T): continue
                        for y in subterms(q):
                            y = C.find(y)
                            if y in seen: continue
                            seen.add(y)
                            if y.op in ("lookup", "at") and self.units(y.a[0]): out.append(("unit key", name(y.a[1]), self.kind(y.a[1]) == "index"))
                            if y.op == "bin" and y.a[0] in CMPS:
                                k, w = self.kind(y.a[1]), self.kind(y.a[2])
                                if k in ("tag", "index") or w in ("tag", "index"): out.append(("compared", name(y), k == w or "any" in (k, w)))
        return sorted(set(out))


CMPS = ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")


def subterms(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        for y in x.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, T): st.append(z)


def tags_job(F, names, sid):
    fl, v = state_flat(F, sid, None, NONE)
    return Tags(Canon(F, fl, v)).obligations()


# ---------------------------------------------------------------- single functions
NONE = re.compile(r"(?!)")


def leaf_job(F, names, key):
    """what one function changes and returns; `only`: the part of the result that is looked at"""
    n, inside, only = key
    fl, v = state_flat(F, ident(F, n), None, re.compile(inside) if inside else NONE)
    C = Canon(F, fl, v); C.narrow = True
    C.closure = lambda c: closure_text(F, c)
    R = Report(C, range(1, fl.nargs + 1))
    res = R.result()
    if only is not None: res = {p: w for p, w in res.items() if re.match(only, p)}
    return {"effects": [r["text"] for r in R.rows], "order": R.order(), "result": res, "blocks": len(v.rpo)}


def skip_job(F, names, key):
    """whether an event of this kind is hidden"""
    name, which, i = key
    kinds = variants_of_enum(F, "SC2EventType")
    def given(x):
        if x.op == "param" and x.a[0] == 1: return kinds.index(which)
        if x.op == "fld" and x.a[1] == "event" and x.a[0].op == "var" and x.a[0].a[0].op == "param": return i
        return None
    from flat import Flattener
    from thread import thread
    base = base_functions()
    def stop(i, p):
        s = F.stubs.get(i)
        return s is None or s.exp or F.impl_exp(i) or p in base and not p.endswith("should_skip")
    fl = Flattener(F, stop=stop, max_blocks=60000).flatten(ident(F, "state::SC2EventType::should_skip"))
    fl.given = given; fl.expand_default = True
    v = thread(F, fl, grow=4.0)
    C = Canon(F, fl, v); C.narrow = True
    R = Report(C, (1, 2))
    return {"result": R.result(), "effects": [r["text"] for r in R.rows]}


# ---------------------------------------------------------------- map files
def closure_text(F, c):
    """what a closure returns"""
    if c.a[4] or c.a[0] not in F.stubs: return "of something"
    fl, v = state_flat(F, c.a[0], None, NONE)
    C = Canon(F, fl, v); C.narrow = True
    r = C.result_table()
    return r.get("", "") if isinstance(r, dict) and set(r) <= {""} else json.dumps(r) if isinstance(r, dict) else r


def number(w):
    """the name of a reader of a number"""
    return re.sub(r"^fn complete::", "complete::", re.sub(r"^complete::([iu]\d+)\((Little|Big)(?:\(\))?\)$", lambda m: "complete::%s_%s" % (m.group(2)[0].lower() + "e", m.group(1)), w))


def pairs(rows, rest):
    """reading some bytes and then the number they are is one step: the first of the two steps"""
    out = set()
    for k in range(len(rows) - 1):
        (w, s, t), (w2, s2, t2) = rows[k:k + 2]
        m, m2 = re.match(r"complete::take\((\d+)\)$", w), re.match(r"complete::[lb]e_[iu](\d+)$", w2)
        b = "#%d.1" % (k + 1)
        others = " ".join([x for j, r in enumerate(rows) if j != k + 1 for x in r] + [rest])
        if m and m2 and int(m.group(1)) * 8 == int(m2.group(1)) and s2 in ("tuple(%s)" % b, b) and t == t2 and not re.search(re.escape(b) + r"\b", others): out.add(k)
    return out


def steps_job(F, names, n):
    """the steps of reading a map file, and what is made of what they read"""
    fl, v = state_flat(F, ident(F, n), None, re.compile(r"cache_handles::map::coords::\w+::new$|cache_handles::map_info::MapInfo::(cell|terrain)_"))
    C = Canon(F, fl, v); C.narrow = True
    calls = [(b, e) for b in v.rpo for e in v.ev[b] if e[0] == "call" and (len(e[2]) >= 2 and (e[1] == "$apply" or re.search(r"\{closure#\d+\}$|nom::", e[1])) or len(e[2]) == 1 and re.match(r"nom::number::complete::[lb]e_[iu]\d+$", e[1]))]
    drop = set()
    while True:
        no, n = {}, 1
        for k in range(len(calls)):
            no[k] = n; n += k not in drop
        C.names = {C.find(e[3]): "#%d" % no[k] for k, (b, e) in enumerate(calls)}
        for b, e in calls:
            for q in e[2]:
                for c in subterms_cached(q):
                    if c.op == "closure" and c not in C.names: C.names[c] = "closure " + closure_text(F, c)
        C._plain = {}
        rows = []
        for k, (b, e) in enumerate(calls):
            C.memo = {}; C.care = C.G.at[b]
            what = re.sub(r"^dbg_peek_hex\((.*), '[^']*'\)(\.0)?$", r"\1", C.val(e[2][0])) if len(e[2]) > 1 else "complete::" + e[1].split("::")[-1]
            src = ", ".join(C.val(q) for q in (e[2][1:] if len(e[2]) > 1 else e[2]))
            C.care = 1; C.memo = {}
            rows.append([number(what), src, loops(C, b)])
        C.memo = {}
        res = Report(C, ()).result()
        if not drop: drop = pairs(rows, json.dumps(res))
        else: break
        if not drop: break
    # the number is read where its bytes are
    for k in drop: rows[k + 1][1:] = rows[k][1:]
    return {"steps": ["#%d = %s of %s%s" % (no[k], *r) for k, r in enumerate(rows) if k not in drop], "result": res}


# ---------------------------------------------------------------- ability names
ABILITY = "game_events::ability::balance_data::get_indexed_ability_command_name"
ENTRIES = [                                          # list of the unit's entries, its ability number, its command index, what is exhausted within it
    ("$1[$2].abilities.inner", "each $1[$2].abilities.inner.index?", "each each $1[$2].abilities.inner.commands.index"),
    ("$1[$2].trains.inner", "each $1[$2].trains.inner.ability_id?", "each $1[$2].trains.inner.command_index?"),
    ("$1[$2].builds.inner", "each $1[$2].builds.inner.ability_id?", "each $1[$2].builds.inner.command_index?"),
    ("$1[$2].researches?.inner", "each $1[$2].researches?.inner.ability", "each $1[$2].researches?.inner.index")]


def text_of_source(C, q):
    C.memo = {}
    return C.val(q)


def ability_job(F, names, n):
    """the names that can be returned and where that is wrong"""
    fl, v = state_flat(F, ident(F, n), None, NONE)
    C = Canon(F, fl, v); C.narrow = True; B = C.b
    C.sharp = True
    atoms = {}
    for b in v.rpo:
        for q in B.support(C.G.at[b]):
            k, i = C.named(q); atoms.setdefault(k[1], set()).add((q, i))
    def says(name, yes):
        """what is assumed when this holds or not"""
        return {q: yes if i is None else (i == 1) == yes for q, i in atoms.get(name, ())}
    def over(name, yes): return {q: (i == 0) == yes for q, i in atoms.get("next " + name, ())}
    def match(a, k, yes): return {q: yes for x in ("(%s Eq %s)" % (k, a), "(%s Eq %s)" % (a, k)) for q, i in atoms.get(x, ())}
    def possible(f, m):
        f = C.G.excl(f)
        r = B.restrict(f, m) if not isinstance(f, int) else f
        return not (isinstance(r, int) and r == 0 or C.G.excl(r) == 0)
    texts, wrong, done = set(), [], 0
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] != "return": continue
            C.memo = {}; C.care = C.G.at[b]
            rows = []
            C.rows(b, e[1], C.G.at[b], "", rows)
            for p, c, t in rows:
                if not possible(c, {}): continue
                texts.add(t); done += 1
                own = [l for l in ENTRIES if "each %s." % l[0] in t]
                if len(own) == 1:
                    l, a, k = own[0]
                    for what, m in (("ability number", match(a, "$3", False)), ("command index", match(k, "$4", False))):
                        if not m or possible(c, m): wrong.append("a name from %s is returned without its %s matching" % (l, what))
                elif own: wrong.append("one name is made of several entries: %s" % t)
                else:
                    for l, a, k in ENTRIES:
                        m = over(l, False); m.update(says("$1.get($2)", True)); m.update(says("$1[$2].researches", True))
                        if not over(l, False) or possible(c, m): wrong.append("%s is returned before all of %s was seen" % (t, l))
    heads = [h for h in v.rpo if any(v.pos[p] >= v.pos[h] for p in v.preds[h])]
    for l, a, k in ENTRIES:
        m = match(a, "$3", True); m.update(match(k, "$4", True))
        for x in (a, k):
            while "?" in x: x = x[:x.rindex("?")]; m.update(says(x, True))
        m.update(over("each %s.commands" % l, False))
        srcs = [l] + (["each %s.commands" % l] if ".commands" in k else [])
        for src in srcs:
            at = [b for (q, _), g in C.iters.items() for b, e in g if text_of_source(C, q) == src]
            if not at: wrong.append("%s is not searched" % src); continue
            for b in at:
                h = min((h for h in heads if b in C.cycle(h)), key=lambda h: len(C.cycle(h)))
                for p in v.preds[h]:
                    if v.pos[p] < v.pos[h]: continue
                    done += 1
                    if possible(C.G.phi_edge(p, h), m): wrong.append("a full match in %s can be passed over" % src)
    return {"texts": sorted(texts), "wrong": sorted(set(wrong)), "rows": done}


# ---------------------------------------------------------------- all of it
LEAVES = [                                           # (property, function, what may be looked into, part of the result)
    ("U01", "tracker_events::unit_tag", None, None), ("U01", "tracker_events::unit_tag_index", None, None), ("U01", "tracker_events::unit_tag_recycle", None, None),
    ("U02", "tracker_events::unit_positions::UnitPositionsEvent::to_unit_positions_vec", None, None), ("U02", "common::Vec3D::new", None, None),
    ("U02", "state::unit_props::get_unit_sized_color", None, "0$"), ("U03", "state::SC2UserState::new", None, None),
    ("U06", "<state::unit_cmd::SC2UnitCmd as core::convert::From<game_events::GameSCmdEvent>>::from", None, None),
    ("U06", "<state::unit_cmd::SC2UnitCmdAbil as core::convert::From<game_events::GameSCmdAbil>>::from", None, None),
    ("U06", "<state::unit_cmd::SC2UnitCmdData as core::convert::From<game_events::GameSCmdData>>::from", None, None),
    ("U06", "<state::unit_cmd::SC2UnitCmdDataTargetUnit as core::convert::From<game_events::GameSCmdDataTargetUnit>>::from", None, None),
    ("A03", "tracker_events::state::get_player_name_by_tracker_control_player_id", None, None), ("A03", "filters::SC2ReplayFilters::set_player_id_from_user_name", None, None),
    ("A03", "<state::SC2ReplayState as core::convert::TryFrom<&init_data::InitData>>::try_from", None, "user_state|details|init_data"),
    ("A03", "game_events::iterator::GameEventIteratorState::get_next_event", None, None),
    ("A01", "state::SC2EventIterator::new", "state::SC2ReplayState::with_balance_units", "sc2_state.balance_units|sc2_state$"), ("A01", "state::SC2ReplayState::with_balance_units", None, None),
    ("E01", "state::SC2EventIterator::new", None, "next_|tracker_iterator_state|game_iterator_state"), ("E01", "state::SC2ReplayState::handle_transition_to_next_event", None, None),
    ("E01", "tracker_events::iterator::TrackertEventIteratorState::get_next_event", None, None),
    ("E03", "state::SC2EventIterator::with_filters", None, None),
]
STEPS = ["cache_handles::map_info::MapInfo::parse", "cache_handles::t3_height_map::T3HeightMap::parse", "cache_handles::document_header::DocumentHeader::parse"]
_S = {}


def job(F, names, key):
    k, a = key
    return {"state": state_job, "next": next_job, "leaf": leaf_job, "skip": skip_job, "steps": steps_job, "tags": tags_job, "ability": ability_job}[k](F, names, a)


def skip_cases(F):
    return [("tracker " + n, "Tracker", i) for i, n in enumerate(variants_of_enum(F, "ReplayTrackerEvent"))] + [("game " + n, "Game", i) for i, n in enumerate(variants_of_enum(F, "ReplayGameEvent"))]


def case_name(c): return ("tracker " if c[0] == TR else "game ") + c[1]


def state_tables(F, kinds=("state", "next", "leaf", "skip", "steps", "tags", "ability")):
    """(kind, name) -> (what was found, why not)"""
    keys = []
    if "state" in kinds: keys += [(("state", c), ("state", case_name(c))) for c in cases(F)]
    if "next" in kinds: keys += [(("next", None), ("next", "next"))]
    if "leaf" in kinds: keys += [(("leaf", l[1:]), ("leaf", "%s %s" % (l[0], l[1]))) for l in LEAVES if l[1] in F.by_pretty]
    if "skip" in kinds: keys += [(("skip", c), ("skip", c[0])) for c in skip_cases(F)]
    if "steps" in kinds: keys += [(("steps", n), ("steps", n)) for n in STEPS if n in F.by_pretty]
    if "ability" in kinds and ABILITY in F.by_pretty: keys.append((("ability", ABILITY), ("ability", ABILITY)))
    if "tags" in kinds:
        for s in F.stubs.values():
            if s.bk == "fn" and not s.exp and not F.impl_exp(s.id) and re.search(r"HashMap<u32, .*SC2Unit|SC2ReplayState", s.raw): keys.append((("tags", s.id), ("tags", s.p)))
    keys = [k for k in keys if (id(F), k[1]) not in _S]
    names = dict((repr(a), b) for a, b in keys)
    for k, r, err in pmap(F, [], job, [a for a, _ in keys]): _S[(id(F), names[repr(k)])] = (r, err)
    return {k[1]: v for k, v in _S.items() if k[0] == id(F) and k[1][0] in kinds}

# ---------------------------------------------------------------- the properties
def state_spec(): return json.load(open(os.path.join(SPEC, "state.json")))


def plain_table(k, r):
    """what is transcribed of a result"""
    if k[0] == "state": return {"effects": sorted([p, t] for p, t, _ in r["effects"]), "order": r["order"], "copies": r["copies"], "result": r["result"]}
    if k[0] == "next": return {"event": r["event"], "cases": {c: {"effects": sorted([p, t] for p, t, _ in x["effects"]), "order": x["order"], "result": x["result"], "unfiltered": x["unfiltered"]} for c, x in r["cases"].items()}}
    if k[0] in ("leaf", "skip", "steps"): return {x: r[x] for x in ("steps", "effects", "order", "result") if x in r}
    if k[0] == "ability": return {"texts": r["texts"]}
    return None


def spec_key(k): return "%s: %s" % k


def owners(name, place):
    """the properties a change belongs to"""
    game = name.startswith("game ")
    h = head(place)
    if ".camera_pos" in h: return {"U07"}
    if ".control_groups" in h: return {"U03"} if game else {"U02"}
    if ".player_lobby_details" in h: return {"A03"}
    if h.endswith((".is_selected", ".radius")): return {"U04"} if game else {"U02", "U04"}
    if ".cmd" in h and game: return {"U06"}
    return {"U02"}


def rows_of(name, t, prop):
    """the rows of an event that this property is about: (kind, text)"""
    out = []
    for e in t["effects"]:
        if prop in owners(name, e[0]): out.append(("effect", e[1]))
    for o in t["order"]:
        a, b = o.split(" -- then -- ")
        if prop in owners(name, a.rsplit(" ", 1)[0]) | owners(name, b.rsplit(" ", 1)[0]): out.append(("order", o))
    for p, w in t["result"].items():
        own = {"U05"} if p.startswith("1") else {"E01"}
        if p.startswith("0") and "player_name" in p: own = {"A03"}
        if p.startswith("0") and name == "game Cmd": own = {"A01"}
        if prop in own: out.append(("report" if p.startswith("1") else "event", "%s = %s" % (p, w)))
    if prop == "U05": out += [("copy", c) for c in t["copies"]]
    return out


def sites_of(F, name, r, text):
    for e in r.get("effects", ()):
        if e[1] == text and len(e) > 2: return e[2]
    f = TR if name.startswith("tracker ") else GA
    return "%s, event %s" % (F.stubs[ident(F, f)].file + " " + f, name)


def rows_diff(ctx, what, want, have, site):
    """rows that are missing or new, those of one place together"""
    for k in want: 
        if k in have: ctx.ok(k[0], "%s|%s" % (what, k[1]))
    gone, new = [k for k in want if k not in have], [k for k in have if k not in want]
    for k in new: ctx.bad(k[0], "%s|has|%s" % (what, k[1]), "%s: now %s" % (what, k[1]), site(k[1]))
    for k in gone: ctx.bad(k[0], "%s|lacks|%s" % (what, k[1]), "%s: no longer %s" % (what, k[1]), site(k[1]))


def tables_of(ctx, *kinds):
    F = ctx.F; ctx.notes_spec = True
    T_ = state_tables(F, kinds); S = state_spec()
    out = []
    for k in sorted(set(T_) | {k for k in (tuple(x.split(": ", 1)) for x in S) if k[0] in kinds}):
        if k not in T_: raise Missing("%s is not there any more" % spec_key(k))
        r, err = T_[k]
        if r is None: raise Missing("%s cannot be analysed: %s" % (spec_key(k), err))
        out.append((k, r, S.get(spec_key(k))))
    return out


def state_check(ctx, prop):
    """the rows of all events this property is about, against the transcription"""
    F = ctx.F
    ctx.anchor(TR); ctx.anchor(GA)
    for (_, name), r, s in tables_of(ctx, "state"):
        if s is None: ctx.bad("event", name, "%s is not a known event" % name, ""); continue
        have, want = rows_of(name, plain_table(("state", name), r), prop), rows_of(name, s, prop)
        rows_diff(ctx, name, want, have, lambda t: sites_of(F, name, r, t))
        ctx.count("blocks analysed", r["blocks"])
        ctx.ok("event", "%s: %d rows" % (name, len(want)))
    ctx.atleast("event", 36, "event kinds")


def leaf_check(ctx, prop):
    F = ctx.F
    for (_, name), r, s in tables_of(ctx, "leaf"):
        p, n = name.split(" ", 1)
        if p != prop: continue
        ctx.anchor(n)
        w, h = dict(plain_table(("leaf", name), r)), dict(s or {})
        f = F.stubs[ident(F, n)].file
        for x in sorted(set(w["result"]) | set(h.get("result", {}))):
            a, b = h.get("result", {}).get(x, "nothing"), w["result"].get(x, "nothing")
            ctx.check(a == b, "value", "%s|%s" % (n, x), "%s: %s is %s instead of %s" % (n, x or "the result", b, a), "%s in %s" % (f, n))
        for x in ("effects", "order"):
            for t in sorted(set(w[x]) | set(h.get(x, ()))):
                ctx.check(t in w[x] and t in h.get(x, ()), "change", "%s|%s" % (n, t), "%s: %s %s" % (n, "now" if t in w[x] else "no longer", t), "%s in %s" % (f, n))


def next_rows(t, prop):
    out = []
    if prop == "E01": out.append(("choice", "next event: " + t["event"]))
    for c, x in sorted(t["cases"].items()):
        filt = lambda p: p.startswith("$1.filters")
        for e in x["effects"]:
            if filt(e[0]) == (prop == "E03") or prop == "E02" and head(e[0]) == "$1.sc2_state": out.append(("effect", "%s: %s" % (c, e[1])))
        for o in x["order"]:
            a, b = o.split(" -- then -- ")
            if filt(a) or filt(b): mine = prop == "E03"
            else: mine = prop == "E01"
            if prop == "E02" and b.startswith("$1.sc2_state"): mine = True
            if mine: out.append(("order", "%s: %s" % (c, o)))
        res = x["unfiltered"] if prop == "E01" else x["result"] if prop == "E03" else {}
        for p, w in res.items(): out.append(("handed out", "%s: %s = %s" % (c, p, w)))
    if prop == "E02": out = [r for r in out if "$1.sc2_state" in r[1].split(": ", 1)[1][:12] or r[0] == "order"]
    return out


def next_check(ctx, prop):
    F = ctx.F; sid = ctx.anchor(NEXT)
    for k, r, s in tables_of(ctx, "next"):
        t = plain_table(k, r)
        def site(x):
            for c in r["cases"].values():
                for e in c["effects"]:
                    if e[1] == x.split(": ", 1)[-1]: return e[2]
            return "%s in %s" % (F.stubs[sid].file, NEXT)
        rows_diff(ctx, "merged stream", next_rows(s, prop), next_rows(t, prop), site)


RULES["E01"] = ("one round of the merged stream, in normal form: the event handed to the state is the pending one of smaller time (tracker at equal times), only that one is taken out, an empty slot is refilled from its own source, "
                "the stream ends only when both slots stay empty; every event handler hands the event on unchanged but for names")


def e01(ctx):
    next_check(ctx, "E01"); state_check(ctx, "E01"); leaf_check(ctx, "E01")
    ctx.atleast("effect", 12, "changes of the pending events"); ctx.atleast("handed out", 4, "cases of pending events"); ctx.atleast("choice", 1, "choice of the event"); ctx.atleast("value", 10, "values")


RULES["E02"] = ("on every path of a round of the merged stream that has an event, the event is applied to the state, before and independent of any filter; nothing reachable from there mentions the filters; "
                "the functions deciding on an event change nothing and read only filter and event")


def e02(ctx):
    F = ctx.F
    next_check(ctx, "E02")
    from rules_misc import callgraph
    g = callgraph(F)
    todo, seen = [ident(F, TR), ident(F, GA)] + [s.id for s in F.stubs.values() if s.p.endswith("::handle_transition_to_next_event")], set()
    while todo:
        x = todo.pop()
        if x in seen or x not in F.stubs: continue
        seen.add(x); todo += sorted(g.get(x, ()))
        s = F.stubs[x]
        ctx.check("SC2ReplayFilters" not in s.raw, "independent of filters", s.p, "%s, which changes the state, depends on the filters" % s.p, s.file)
    for (_, name), r, s in tables_of(ctx, "skip"):
        for t in r["effects"]: ctx.bad("decision changes nothing", "%s|%s" % (name, t), "deciding whether to show %s changes %s" % (name, t), "state::SC2EventType::should_skip")
        if not r["effects"]: ctx.ok("decision changes nothing", name)
        for p, w in r["result"].items(): ctx.check(not re.search(r"\$[3-9]", w), "decision reads the event", name, "%s is shown depending on %s" % (name, w), "state::SC2EventType::should_skip")
    ctx.atleast("independent of filters", 30, "functions that change the state"); ctx.atleast("decision changes nothing", 31, "event kinds"); ctx.atleast("effect", 3, "applications to the state"); ctx.atleast("order", 5, "orders")


RULES["E03"] = ("for every event kind the condition under which it is hidden, in normal form, is the transcribed one (own player, own unit name, statistics); the time limits compare the time of the event handed out, "
                "whichever stream it came from, and the event limit counts exactly the events shown")


def e03(ctx):
    F = ctx.F
    next_check(ctx, "E03"); leaf_check(ctx, "E03")
    for (_, name), r, s in tables_of(ctx, "skip"):
        a, b = text_of(s["result"]) if s else "nothing known", text_of(r["result"])
        ctx.check(a == b, "hidden", name, "%s is hidden if %s instead of %s" % (name, b, a), "state::SC2EventType::should_skip")
    ctx.atleast("hidden", 31, "event kinds"); ctx.atleast("handed out", 4, "cases of pending events")


RULES["U01"] = ("kind inference (tag or index) over every value of the event handlers, inlined: every key of the unit registry is an index, every reduction is applied to a tag, every comparison and every element added to a group agrees in kind; "
                "the reduction itself has its transcribed normal form")


def u01(ctx):
    F = ctx.F
    ctx.anchor(TR); ctx.anchor(GA)
    for (_, name), r, s in tables_of(ctx, "state"):
        for kind_, text, holds in r["tags"]:
            ctx.check(holds, kind_, "%s|%s" % (name, text), "%s: %s is not %s" % (name, text, {"unit key": "a unit index", "reduced": "a unit tag", "compared": "a comparison of the same kind of number", "grouped": "of the kind the group holds", "recorded": "of the kind the field holds"}[kind_]), sites_of(F, name, r, ""))
    from rules_misc import callgraph
    g = callgraph(F); base = base_functions()
    todo, seen = [ident(F, TR), ident(F, GA)], set()
    while todo:
        x = todo.pop()
        if x in seen or x not in F.stubs: continue
        p = F.stubs[x].p
        if x not in (ident(F, TR), ident(F, GA)) and (LEAF.search(p) or p in base and not INSIDE.match(p)): continue
        seen.add(x); todo += sorted(g.get(x, ()))
    for (_, n), r, _ in [(k, r, 0) for k, r, _ in tables_of(ctx, "tags")]:
        if ident(F, n) in seen: continue
        ctx.ok("other functions with units", n)
        for kind_, text, holds in r: ctx.check(holds, kind_, "%s|%s" % (n, text), "%s: %s mixes unit tags and indexes" % (n, text), F.stubs[ident(F, n)].file)
    leaf_check(ctx, "U01")
    ctx.atleast("unit key", 30, "uses of the unit registry"); ctx.atleast("reduced", 10, "reductions of tags"); ctx.atleast("compared", 3, "comparisons"); ctx.atleast("grouped", 5, "additions to groups"); ctx.atleast("value", 3, "tag functions")


def of_state(prop, rule, least, leaf=False):
    RULES[prop] = rule
    def f(ctx):
        state_check(ctx, prop)
        if leaf: leaf_check(ctx, prop)
        for k, n in least.items(): ctx.atleast(k, n, k)
    CHECKS[prop] = f


NF = "the effects of each event kind, computed by inlining its handler and put in normal form (place, value, condition, element it applies to), together with the order of those that depend on each other, equal the transcribed ones: "
of_state("U02", NF + "registration, renaming, completion, movement and removal of units, time stamps, and nothing else", {"effect": 75}, True)
of_state("U03", NF + "control groups, for every kind of update", {"effect": 12, "order": 15}, True)
of_state("U04", NF + "selection marks and radii", {"effect": 8, "order": 6})
of_state("U05", "the unit copied into each change report is read after all changes of the event to it (normal form of the report, with reads resolved at the point of copying), copies taken before a change are the transcribed ones", {"report": 55, "copy": 4})
of_state("U06", NF + "commands recorded on units, for the selection of the issuing user", {"effect": 5}, True)
of_state("U07", NF + "camera positions", {"effect": 4})


RULES["A01"] = ("every name the lookup can return is made of one entry whose ability number and command index equal those asked for on that path; the empty name is returned only after all entries of the unit, and no full match is passed over; "
                "the entries are those of the replay's version and the lookup is made with the ability, command and unit of the event")


def a01(ctx):
    F = ctx.F
    ctx.anchor(ABILITY)
    for (_, n), r, s in tables_of(ctx, "ability"):
        f = F.stubs[ident(F, n)].file
        for t in sorted(set(r["texts"]) | set(s["texts"])):
            ctx.check(t in r["texts"] and t in s["texts"], "name", t, "%s %s %s" % (n, "now returns" if t in r["texts"] else "no longer returns", t), "%s in %s" % (f, n))
        for t in r["wrong"]: ctx.bad("full match", t, "%s: %s" % (n, t), "%s in %s" % (f, n))
        ctx.ok("full match", "paths of %s" % n, r["rows"] - len(r["wrong"]))
    leaf_check(ctx, "A01"); state_check(ctx, "A01")
    for (_, name), r, s in tables_of(ctx, "state"):
        have, want = plain_table(("state", name), r)["effects"], (s or {"effects": []})["effects"]
        rows_diff(ctx, name, [("lookup", t) for _, t in want if "ability" in t and ".cmd" in t], [("lookup", t) for _, t in have if "ability" in t and ".cmd" in t], lambda t: sites_of(F, name, r, t))
    ctx.atleast("full match", 10, "paths"); ctx.atleast("name", 5, "names"); ctx.atleast("lookup", 1, "lookups"); ctx.atleast("value", 2, "balance data")


RULES["A02"] = ("the reads of a map file, in order, with the width and byte order of each, and the conditions and values of what is made of them, equal the transcribed ones: magic, version-dependent header, dimension and bounds checks, position of each field")


def a02(ctx):
    F = ctx.F
    for (_, n), r, s in tables_of(ctx, "steps"):
        ctx.anchor(n); f = "%s in %s" % (F.stubs[ident(F, n)].file, n)
        for i in range(max(len(r["steps"]), len(s["steps"]))):
            a = s["steps"][i] if i < len(s["steps"]) else "nothing"; b = r["steps"][i] if i < len(r["steps"]) else "nothing"
            ctx.check(a == b, "step", "%s|%d" % (n, i), "%s: the step is %s instead of %s" % (n, b, a), f)
        for x in sorted(set(s["result"]) | set(r["result"])):
            a, b = s["result"].get(x, "nothing"), r["result"].get(x, "nothing")
            ctx.check(a == b, "result", "%s|%s" % (n, x), "%s: %s is %s instead of %s" % (n, x, b, a), f)
    ctx.atleast("step", 20, "reads"); ctx.atleast("result", 17, "fields")


RULES["A03"] = ("the joins of lobby slots, details, users and tracker players compare the transcribed keys, the tracker player is attached to the user its own setup event names, "
                "and each name attached to an event is looked up by that event's own user or player number")


def a03(ctx):
    state_check(ctx, "A03"); leaf_check(ctx, "A03")
    from rules_export import table as export_table, columns_spec, DETAILS
    r, f = export_table(ctx, DETAILS); want = columns_spec()[DETAILS]
    for ty in sorted(set(want["rows"]) | set(r["rows"])):
        for w, h in zip(want["rows"].get(ty, [{}]), r["rows"].get(ty, [{}])):
            for c in sorted(set(w) | set(h)): ctx.check(w.get(c) == h.get(c), "join", "%s|%s" % (ty, c), "%s: %s holds %s instead of %s" % (DETAILS, c, h.get(c, "nothing"), w.get(c, "nothing")), f)
    ctx.check(text_of(r["result"]) == text_of(want["result"]), "join", "result", "%s returns %s instead of %s" % (DETAILS, text_of(r["result"]), text_of(want["result"])), f)
    ctx.atleast("effect", 2, "changes"); ctx.atleast("value", 6, "lookups"); ctx.atleast("join", 3, "joins")


CHECKS.update({"E01": e01, "E02": e02, "E03": e03, "U01": u01, "A01": a01, "A02": a02, "A03": a03})

if __name__ == "__main__":
    import sys, build, time
    sys.setrecursionlimit(20000)
    from facts import Facts
    F = Facts(build.facts())
    for c in cases(F):
        if not re.search(sys.argv[1], c[1]): continue
        t = time.time()
        r = state_job(F, [], c)
        print("##", c[1], r["blocks"], "%.1f" % (time.time() - t))
        for p, e in r["effects"]: print("  E", e)
        for e in r["order"]: print("  O", e)
        for e in r["copies"]: print("  C", e)
        for p, w in sorted(r["result"].items()): print("  R", p, "=", w)
