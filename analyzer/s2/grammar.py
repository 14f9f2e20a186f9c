"""What a decoder function consumes: the regular language of its reads, as a minimal deterministic automaton.

A read is a call that takes the input cursor and returns `Result<(cursor, value), _>`.  Every path that ends in an error
is dropped; what is left is the sequence of reads (with their constant operands), the tests made on values read, and the
repetition counts, on the way to a successful return."""
import re
from flat import fsuccs, Flattener
from vals import *
from thread import thread
from guard import base, isbool, nvar, Guards

CUR = r"(?:&(?:'\w+ )?\[u8\]|\(&(?:'\w+ )?\[u8\], usize\))"
READER_TY = re.compile(r"^(?:core::result::)?Result<\((%s), " % CUR)
CUR_RE = re.compile(r"^%s$" % CUR)


class Gram:
    """value analysis of one decoder plus its reads"""

    def __init__(self, F, bid, stop, max_blocks=20000, grow=4.0):
        self.F = F; self.id = bid
        self.stub = F.stubs[bid]
        self.fl = Flattener(F, stop=stop, max_blocks=max_blocks).flatten(bid)
        self.v = thread(F, self.fl, grow=grow)
        v = self.v
        self.reads = {}        # block -> call event
        self.rterm = {}        # result term -> call event
        for b in v.rpo:
            t = self.fl.bbs[b]["t"]
            if t[0] != "call" or len(t[3]) != 1: continue
            if not READER_TY.match(self.fl.locals[t[3][0]]): continue
            ev = [e for e in v.ev[b] if e[0] == "call"][-1]
            if ev[1].startswith(("$from", "$try_from")): continue
            self.reads[b] = ev; self.rterm[ev[3]] = ev
        for b, ev in list(self.reads.items()):
            if not any(self.curlike(x) for x in flat_args(ev[2])): del self.reads[b]; self.rterm.pop(ev[3], None)
        self.rets = {b: e[1] for b in v.rpo for e in v.ev[b] if e[0] == "return"}
        self.okrets = {b: t for b, t in self.rets.items() if self.klass(t) != "err"}
        self.dests = {}; self.consts = {}; self.nodest = []
        self._flow()

    # ----- cursors -----
    def curlike(self, t, seen=None):
        """is t a position in the input?"""
        if t.op == "param":
            return bool(CUR_RE.match(self.fl.locals[t.a[0]]))
        if t.op == "agg" and t.a[0] == "tuple" and len(t.a[4]) == 2: return self.bytes_of(t.a[4][0])
        if t.op == "fld" and t.a[1] == "0" and self.readval(t.a[0]): return True
        if t.op == "phi":
            seen = seen or set()
            if t in seen: return True
            seen.add(t)
            ops = self.v.phis.get(t, {}).values()
            return bool(ops) and all(self.curlike(o, seen) for o in ops)
        return False

    def bytes_of(self, t):
        """the byte slice of a bit cursor"""
        return t.op == "fld" and t.a[1] == "0" and not self.readval(t.a[0]) and self.curlike(t.a[0])

    def readval(self, t):
        """payload (cursor, value) of a successful read"""
        return t.op == "fld" and t.a[1] == "0" and t.a[0].op == "var" and t.a[0].a[1] == "Ok" and t.a[0].a[0] in self.rterm

    def readof(self, t):
        """the read whose value t is"""
        if t.op == "fld" and t.a[1] == "1" and self.readval(t.a[0]): return t.a[0].a[0].a[0]
        return None

    # ----- results -----
    def klass(self, t, seen=None):
        d = discr_(t)
        if is_const(d): return "ok" if d.a[0] == 0 else "err"
        if t in self.rterm: return "read"
        if t.op == "phi":
            seen = seen or set()
            if t in seen: return "err"
            seen.add(t)
            ks = {self.klass(o, seen) for o in self.v.phis.get(t, {}).values()}
            if ks == {"err"}: return "err"
            if "err" in ks: return "mixed"
            return "ok" if ks else "mixed"
        return "other"

    def okvals(self, t, seen=None):
        """(cursor, value) pairs a returned term may succeed with"""
        seen = seen if seen is not None else set()
        if t in seen: return
        seen.add(t)
        if t.op == "phi":
            for o in self.v.phis.get(t, {}).values(): yield from self.okvals(o, seen)
        elif t in self.rterm:
            p = fld(var(t, "Ok"), "0")
            yield fld(p, "0"), fld(p, "1"), t
        elif is_const(discr_(t)):
            if discr_(t).a[0] == 0:
                p = fld(t, "0")
                yield fld(p, "0"), fld(p, "1"), t
        else: yield None, t, t

    # ----- where the values go -----
    def _flow(self):
        for b, t in self.okrets.items():
            for c, val, _ in self.okvals(t): self.walk(val, "", set())

    def walk(self, t, path, seen, ops=frozenset()):
        k = (t, path, ops)
        if k in seen or len(path) > 160: return
        seen.add(k)
        r = self.readof(t)
        lab = path + ("~" + ",".join(sorted(ops)) if ops else "")
        if r is not None: self.dests.setdefault(r, set()).add(lab); return
        o, a = t.op, t.a
        go = lambda x, p=path, *more: self.walk(x, p, seen, ops | frozenset(more))
        if o == "phi":
            y = self.decided(t)
            if y is not None: go(y); return
            for x in self.v.phis.get(t, {}).values(): go(x)
        elif o == "agg":
            enum = a[0] not in ("tuple", "array") and self.isenum(a[0])
            opt = a[0].endswith(("option::Option", "result::Result"))
            if not a[4] and a[0] not in ("tuple", "array"): self.consts.setdefault(lab, set()).add(a[2] or "()")
            for n, x in zip(a[3], a[4]):
                if opt or ops: go(x)
                else: go(x, path + ("/" + a[2] if enum else "") + ("." + n if n else ""))
        elif o == "mut":
            if re.search(r"::(reserve\w*)$", a[1]): go(a[0]); return
            go(a[0])
            for x in a[2]:
                if self.curlike(x): continue
                if re.search(r"::(push|push_back|extend\w*|append)$", a[1]) and not ops: go(x, path + "[]")
                else: go(x, path, short(a[1]))
        elif o == "cast": go(a[0])
        elif o in ("const", "item", "konst", "default"):
            if not ops: self.consts.setdefault(lab, set()).add(show(t))
        elif o == "newcoll": pass
        elif o == "call":
            m = re.match(r"\$(try_)?from<", a[0])
            for i, x in enumerate(a[1]):
                if self.curlike(x): continue
                if m: go(x)
                else: go(x, path, short(a[0]) + (str(i) if i else ""))
        elif o == "bin":
            both = not is_const(a[1]) and not is_const(a[2])
            # a single bit that is one is not nought
            if a[0] == "Eq" and is_const(a[2]) and a[2].a[0] == 1:
                r1 = self.readof(a[1])
                if r1 is not None and re.search(r"take_n_bits(_into_i64)?\(1\)$", self.rlabel(r1)): go(a[1], path, "Eq(0)", "Not"); return
            for i, x in enumerate(a[1:]):
                if is_const(x): continue
                go(x, path, a[0] + (("" if a[0] in COMM else str(i)) if both else "(%s)" % show(a[2] if is_const(a[2]) else a[1])))
        elif o == "un": go(a[1], path, a[0])
        elif o == "fld":
            if a[1] == "0" and a[0].op == "var" and a[0].a[1] in ("Some", "Ok"):
                x = a[0].a[0]
                if x.op == "phi": self.walkpay(x, a[0].a[1], path, seen, set(), ops)
                else: go(x)
            else: go(a[0], path, "." + a[1])
        elif o == "var":
            if a[1] in ("Some", "Ok"): go(a[0])
            else: go(a[0], path, "@" + a[1])
        elif o == "upd":
            go(a[0])
            if ops: go(a[2])
            else: go(a[2], path + "." + str(a[1]))
        elif o in ("len", "elem"): go(a[0], path, o)
        elif o == "at": go(a[0], path, "at"); go(a[1], path, "index")
        elif o == "slice": go(a[0], path, "slice")

    def decided(self, t):
        """yes or no, by one test that decides between them: that test"""
        ops = self.v.phis.get(t, {})
        if len(ops) < 2 or not all(is_const(x) for x in ops.values()) or {x.a[0] for x in ops.values()} != {0, 1}: return None
        G = self.__dict__.get("_guards")
        if G is None: G = self._guards = Guards(self.v)
        f, here = G.formula(t, 1), G.at.get(t.a[0])
        if here is None: return None
        b = G.b
        for a in b.support(f):
            if a[0] == "val" and isinstance(a[2], int): c = bin_("Eq", a[1], const(a[2]))
            elif a[0] == "true": c = a[1]
            else: continue
            x = b.var(a)
            for w, y in ((x, c), (b.NOT(x), un_("Not", c))):
                d = b.AND(here, b.OR(b.AND(f, b.NOT(w)), b.AND(w, b.NOT(f))))
                if G.excl(d) == 0: return y
        return None

    def walkpay(self, ph, vn, path, seen, done, ops):
        """payload of a choice: the alternatives that are that variant"""
        if ph in done: return
        done.add(ph)
        for o in self.v.phis.get(ph, {}).values():
            if o.op == "phi": self.walkpay(o, vn, path, seen, done, ops)
            elif o.op == "agg" and o.a[2] and o.a[2] != vn: continue
            else: self.walk(fld(var(o, vn), "0"), path, seen, ops)

    def isenum(self, id):
        adt = self.F.adts.get(id)
        return bool(adt and adt["enum"])

    # ----- labels -----
    def desc(self, t, d=0):
        if d > 8: return "…"
        r = self.readof(t)
        if r is not None: return "<%s>" % self.rlabel(r)
        o, a = t.op, t.a
        if o == "cast": return self.desc(a[0], d + 1)
        if o == "call" and re.match(r"\$(try_)?from<", a[0]): return self.desc(a[1][0], d + 1)
        if o == "const": return show(t)
        if self.curlike(t):
            if t.op == "agg": return "(" + ", ".join(self.desc(x, d + 1) for x in t.a[4]) + ")"
            return "•"
        if o == "fld" and a[1] == "0" and a[0].op == "var" and a[0].a[1] in ("Ok", "Some"):
            return self.desc(a[0].a[0], d + 1)
        if o == "bin":
            l = [self.desc(a[1], d + 1), self.desc(a[2], d + 1)]
            if a[0] in COMM and not is_const(a[2]): l.sort()
            return "(%s %s %s)" % (l[0], a[0], l[1])
        if o == "un": return "%s(%s)" % (a[0], self.desc(a[1], d + 1))
        if o == "call" and a[0].endswith("error::dbg_dmp"): return self.desc(a[1][0], d + 1)
        if o == "call": return "%s(%s)" % (short(a[0]), ", ".join(self.desc(x, d + 1) for x in a[1] if not self.curlike(x)))
        if o == "phi":
            if t in self._open: return "~"
            self._open.append(t)
            try:
                alts = set()
                for x in self.alts(t): alts.add(self.desc(x, d + 1))
                return "{" + " | ".join(sorted(alts)) + "}" if len(alts) > 1 else next(iter(alts), "?")
            finally: self._open.pop()
        if o == "fld": return self.desc(a[0], d + 1) + "." + a[1]
        if o == "agg": return (a[2] or a[0]) + "{" + ",".join(self.desc(x, d + 1) for x in a[4]) + "}"
        if o == "param": return "arg%d" % a[0]
        if o == "discr": return "discr(%s)" % self.desc(a[0], d + 1)
        if o in ("len",): return "len(%s)" % self.desc(a[0], d + 1)
        if o == "at": return "%s[%s]" % (self.desc(a[0], d + 1), self.desc(a[1], d + 1))
        if o == "item": return "item " + str(a[0])
        return o

    _open = []

    def alts(self, t):
        """values a choice may be, other than choices"""
        out = []; seen = set(); st = [t]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == "phi": st.extend(self.v.phis.get(x, {}).values())
            else: out.append(x)
        return out

    def rlabel(self, r):
        e = self.rterm[r]
        return self.clabel(e)

    def clabel(self, e):
        rp, args = e[1], e[2]
        rest = []
        if rp == "$apply" or re.search(r"\{closure#\d+\}$|ops::function::Fn(Mut|Once)?::call\w*$", rp):
            name = self.desc(args[0]); args = args[1:]
            wrap = True
        else: name = rp; wrap = False
        for x in flat_args(args):
            if self.curlike(x):
                if x.op == "agg": rest.append("at " + self.desc(x))
                continue
            if is_const(x) and isinstance(x.a[0], str) and x.a[1] == "str": continue
            rest.append(self.desc(x))
        if wrap and not rest: return name
        return "%s(%s)" % (name, ", ".join(rest))

    # ----- automaton -----
    def nfa(self, dest=True):
        """edges {state: [(label|None, state)]}, start, accepting"""
        v = self.v; E = {}; acc = set(); self.tests = {}; groups = []
        shapes = self._shapephis() if dest else {}
        for b in v.rpo:
            t = self.fl.bbs[b]["t"]
            if t[0] == "return":
                k = self.klass(self.rets[b]) if b in self.rets else "err"
                if k == "err": continue
                lab = None
                if dest:
                    s = sorted(set(self.shape(self.rets[b], "")))
                    if s: lab = "return " + ", ".join(s)
                if lab: E.setdefault(b, []).append((lab, ("acc",))); acc.add(("acc",))
                else: acc.add(b)
                continue
            if t[0] in ("panic", "unreachable"): continue
            es = self.edges(b, t, dest)
            if t[0] == "switch" and es and all(l is not None for _, l in es): groups.append((b, es))
            for s, lab in es:
                if lab == "PRUNE": continue
                tgt = s
                sl = shapes.get((b, s))
                if sl:
                    mid = ("e", b, s)
                    E.setdefault(mid, []).append((sl, s)); tgt = mid
                E.setdefault(b, []).append((lab, tgt))
        good = coreach(E, acc)
        for b, es in groups:
            # a test is neutral where no outcome of it is an error
            full = all(s in good or self.fl.bbs[s]["t"][0] == "unreachable" for s, _ in es)
            for _, l in es: self.tests[l] = self.tests.get(l, True) and full
        return E, v.rpo[0], acc

    def edges(self, b, t, dest):
        v = self.v
        if b in self.reads:
            e = self.reads[b]
            lab = self.clabel(e)
            if dest:
                ds = self.dests.get(e[3])
                lab += " -> " + ("|".join(sorted(ds)) if ds is not None else "·")
            return [(t[4], lab)] if t[4] is not None else []
        if t[0] != "switch": return [(s, None) for s in fsuccs(t)]
        c = None
        for e in reversed(v.ev[b]):
            if e[0] == "switch": c = e[1]; break
        c, neg = base(c)
        out = []
        vals = {}
        for val, tgt in t[3]: vals.setdefault(tgt, []).append((1 - val) if neg else val)
        arms = {(1 - val) if neg else val for val, _ in t[3]}
        # outcome of a read
        if c.op == "discr" and self.failable(c.a[0]):
            for val, tgt in t[3]:
                if val == 0: out.append((tgt, None))
            if 0 not in arms: out.append((t[4], None))
            return out
        lab = None
        if c.op == "discr" and c.a[0].op == "iternext":
            d = self.repdesc(c.a[0].a[0])
            if d is not None: lab = {1: "REP %s +" % d, 0: "REP %s -" % d}
        elif c.op == "bin" and c.a[0] == "Lt" and self.counter(c.a[1]):
            lab = {1: "REP %s +" % self.desc(c.a[2]), 0: "REP %s -" % self.desc(c.a[2])}
        elif c.op == "bin" and c.a[0] == "Eq" and (self.counter(c.a[1]) or self.counter(c.a[2])):
            o = c.a[2] if self.counter(c.a[1]) else c.a[1]
            lab = {0: "REP %s +" % self.desc(o), 1: "REP %s -" % self.desc(o)}
        if lab is not None:
            for tgt, vs in vals.items():
                for x in vs: out.append((tgt, lab.get(x)))
            oth = [x for x in (0, 1) if x not in arms]
            for x in oth: out.append((t[4], lab[x]))
            return out
        if self.wire(c):
            if isbool(c):
                if c.op == "bin" and c.a[0] == "Eq" and is_const(c.a[2]):
                    d = self.desc(c.a[1]); k = c.a[2].a[0]
                    lab = {1: "%s == %s" % (d, k), 0: "%s != {%s}" % (d, k)}
                else: lab = {1: self.desc(c), 0: "!" + self.desc(c)}
                for tgt, vs in vals.items():
                    for x in vs: out.append((tgt, lab.get(x, "?")))
                for x in (0, 1):
                    if x not in arms: out.append((t[4], lab[x]))
                return out
            d = self.desc(c)
            for tgt, vs in vals.items():
                for x in vs: out.append((tgt, "%s == %s" % (d, x)))
            out.append((t[4], "%s != {%s}" % (d, ", ".join(str(x) for x in sorted(arms)))))
            return out
        return [(s, None) for s in fsuccs(t)]

    def failable(self, x, d=0):
        """a Result whose failure ends the decode"""
        if x in self.rterm: return True
        if x.op == "call" and x.a[0].startswith("$try_from<"): return True
        if x.op == "call" and re.search(r"from_utf8$|::try_from$|::try_into$|checked_", x.a[0]): return True
        return False

    def counter(self, t):
        if t.op == "cast": return self.counter(t.a[0])
        if t.op != "phi": return False
        ops = [o for o in self.v.phis.get(t, {}).values()]
        if len(ops) < 2: return False
        z = [o for o in ops if is_const(o) and o.a[0] == 0]
        inc = [o for o in ops if o.op == "bin" and o.a[0] == "Add" and o.a[1] is t and is_const(o.a[2]) and o.a[2].a[0] == 1]
        return len(z) + len(inc) == len(ops) and bool(z) and bool(inc)

    def repdesc(self, c):
        if c.op == "agg" and c.a[0].startswith("core::ops::range::Range"):
            s, e = fld(c, "start"), fld(c, "end")
            if is_const(s) and s.a[0] == 0 and c.a[0].endswith("::Range"): return self.desc(e)
            return "%s%s%s" % (self.desc(s), ".." if c.a[0].endswith("::Range") else "..=", self.desc(e))
        if self.wire(c): return "each " + self.desc(c)
        return None

    def wire(self, t):
        """does t depend on a value read here?"""
        if not self.direct(t): return False
        seen = set(); st = [t]
        while st:
            x = st.pop()
            if x in seen or self.curlike(x): continue
            seen.add(x)
            for s in subterms_cached(x):
                if s in self.rterm: return True
                if s.op == "param" and not self.curlike(s): return True
                if s.op == "fld" and s.a[1] == "1" and self.curlike(s.a[0]): return True
                if s.op == "phi" and s is not x and s not in seen: st.append(s)
            if x.op == "phi": st.extend(self.v.phis.get(x, {}).values())
        return False

    def direct(self, t):
        # a test on the presence of a decoded field is no test of the input
        return not (t.op == "discr" and t.a[0].op in ("agg", "phi"))

    def shape(self, t, path, seen=None):
        if t.op == "agg":
            opt = t.a[0].endswith(("option::Option", "result::Result")) or t.a[0] in ("tuple", "array")
            if not opt and self.isenum(t.a[0]):
                yield "%s=%s" % (path, t.a[2])
                path = path + "/" + t.a[2]
            for n, x in zip(t.a[3], t.a[4]): yield from self.shape(x, path if opt else path + "." + n)

    def _shapephis(self):
        """labels for edges on which the kind of result is decided"""
        res = {}
        todo = []
        for b, t in self.okrets.items(): todo.append((t, ""))
        seen = set()
        while todo:
            t, path = todo.pop()
            if (t, path) in seen: continue
            seen.add((t, path))
            if t.op == "phi":
                J = t.a[0]
                for p, o in self.v.phis.get(t, {}).items():
                    s = sorted(set(self.shape(o, path)))
                    if s: res.setdefault((p, J), set()).update(s)
                    todo.append((o, path))
            elif t.op == "agg":
                opt = t.a[0].endswith(("option::Option", "result::Result")) or t.a[0] in ("tuple", "array")
                pp = path + "/" + t.a[2] if not opt and self.isenum(t.a[0]) else path
                for n, x in zip(t.a[3], t.a[4]): todo.append((x, pp if opt else pp + "." + n))
        return {k: "gives " + ", ".join(sorted(s)) for k, s in res.items()}


def flat_args(args):
    for x in args:
        if x.op == "agg" and x.a[0] == "tuple" and len(x.a[4]) == 1: yield from flat_args(x.a[4])
        else: yield x


# ---------- automata ----------
def coreach(E, acc):
    rev = {}
    for x, l in E.items():
        for _, y in l: rev.setdefault(y, []).append(x)
    good = set(acc); st = list(acc)
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in good: good.add(y); st.append(y)
    return good


def determinise(E, start, acc):
    def close(S):
        S = set(S); st = list(S)
        while st:
            x = st.pop()
            for l, y in E.get(x, ()):
                if l is None and y not in S: S.add(y); st.append(y)
        return frozenset(S)
    good = coreach(E, acc)
    s0 = close([start]) & good
    if start not in good: return {}, None, set()
    D = {}; names = {}
    todo = [frozenset(s0)]
    while todo:
        S = todo.pop()
        if S in D: continue
        tr = {}
        for x in S:
            for l, y in E.get(x, ()):
                if l is not None and y in good: tr.setdefault(l, set()).add(y)
        D[S] = {l: frozenset(close(Y) & good) for l, Y in tr.items()}
        todo.extend(D[S].values())
        if len(D) > 20000: raise Exception("automaton too large")
    A = {S for S in D if S & acc}
    return D, frozenset(s0), A


def minimise(D, s0, A):
    if s0 is None: return [], set()
    part = {s: (1 if s in A else 0) for s in D}
    n = len(set(part.values()))
    while True:
        sig = {s: (part[s], tuple(sorted((l, part[t]) for l, t in D[s].items()))) for s in D}
        ids = {}
        new = {s: ids.setdefault(sig[s], len(ids)) for s in D}
        if len(ids) == n: break
        part = new; n = len(ids)
    # canonical numbering by breadth-first walk in label order
    rep = {}
    for s in D: rep.setdefault(part[s], s)
    num = {part[s0]: 0}; order = [part[s0]]; i = 0
    while i < len(order):
        c = order[i]; i += 1
        for l, t in sorted(D[rep[c]].items()):
            k = part[t]
            if k not in num: num[k] = len(order); order.append(k)
    rows = []
    accs = set()
    for c in order:
        rows.append(sorted((l, num[part[t]]) for l, t in D[rep[c]].items()))
        if rep[c] in A: accs.add(num[c])
    return rows, accs


def automaton(g, dest=True):
    E, s, a = g.nfa(dest)
    rows, accs = minimise(*determinise(E, s, a))
    while True:
        # a test that changes nothing about what follows is no part of the language
        skip = {i: r[0][1] for i, r in enumerate(rows)
                if r and i not in accs and len({t for _, t in r}) == 1 and r[0][1] != i and all(g.tests.get(l) for l, _ in r)}
        if not skip: return rows, accs
        E2 = {i: ([(None, skip[i])] if i in skip else r) for i, r in enumerate(rows)}
        rows, accs = minimise(*determinise(E2, 0, accs))


def text(rows, accs):
    out = []
    for i, r in enumerate(rows):
        if i in accs: out.append("%d accept" % i)
        for l, t in r: out.append("%d [%s] %d" % (i, l, t))
    return out


PRIM = re.compile(r"^(versioned_decoder|bit_packed_decoder)::\w+$|^parse_vlq_int$")
TYPE_PARSE = re.compile(r"^versions::protocol\w+::(byte_aligned|bit_packed)::\w+::parse$")


def decoder_stop(F):
    def stop(i, p): return bool(PRIM.match(p) or TYPE_PARSE.match(p))
    return stop
