"""Path conditions of a flattened function as BDDs over normalised atoms, and the folding of repeated tests."""
from flat import fsuccs, OPT, RES
from vals import mk, T, is_const, subst, mentions, lastfield, disjoint, subterms_cached, show, discr_, fld, var


# ---------- BDD ----------
class BDD:
    def __init__(self):
        self.tab = {}; self.memo = {}; self.atoms = []; self.idx = {}

    def var(self, a):
        i = self.idx.get(a)
        if i is None:
            i = self.idx[a] = len(self.atoms); self.atoms.append(a)
        return self.node(i, 0, 1)

    def node(self, i, lo, hi):
        if lo is hi or lo == hi and isinstance(lo, int) and isinstance(hi, int): return lo
        k = (i, lo if isinstance(lo, int) else id(lo), hi if isinstance(hi, int) else id(hi))
        n = self.tab.get(k)
        if n is None: n = self.tab[k] = (i, lo, hi)
        return n

    def ite(self, f, g, h):
        if f == 1 if isinstance(f, int) else False: return g
        if f == 0 if isinstance(f, int) else False: return h
        if g is h: return g
        if isinstance(g, int) and isinstance(h, int):
            if g == h: return g
            if g == 1 and h == 0: return f
        k = (_k(f), _k(g), _k(h))
        r = self.memo.get(k)
        if r is not None: return r
        i = min(x[0] for x in (f, g, h) if not isinstance(x, int))
        co = lambda x, b: x if isinstance(x, int) or x[0] != i else x[2 if b else 1]
        r = self.node(i, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        if len(self.memo) > 3000000: raise Exception("path condition too large")
        return r

    def AND(self, a, b): return self.ite(a, b, 0)
    def OR(self, a, b): return self.ite(a, 1, b)
    def NOT(self, a): return self.ite(a, 0, 1)
    def implies(self, a, b): return self.AND(a, self.NOT(b)) == 0
    def all(self, xs):
        r = 1
        for x in xs: r = self.AND(r, x)
        return r
    def any(self, xs):
        r = 0
        for x in xs: r = self.OR(r, x)
        return r

    def restrict(self, f, m):
        """fix variables: m maps atom -> bool"""
        mi = {self.idx[a]: b for a, b in m.items() if a in self.idx}
        memo = {}
        def go(x):
            if isinstance(x, int): return x
            r = memo.get(id(x))
            if r is None:
                if x[0] in mi: r = go(x[2] if mi[x[0]] else x[1])
                else: r = self.ite(self.node(x[0], 0, 1), go(x[2]), go(x[1]))
                memo[id(x)] = r
            return r
        return go(f)

    def exists(self, f, atoms):
        for a in atoms: f = self.OR(self.restrict(f, {a: True}), self.restrict(f, {a: False}))
        return f

    def support(self, f):
        seen = set(); out = set(); st = [f]
        while st:
            x = st.pop()
            if isinstance(x, int) or id(x) in seen: continue
            seen.add(id(x)); out.add(self.atoms[x[0]]); st += [x[1], x[2]]
        return out

    def cubes(self, f, lim=40):
        out = []
        def go(x, c):
            if len(out) >= lim or x == 0 and isinstance(x, int): return
            if isinstance(x, int): out.append(list(c)); return
            go(x[1], c + [(self.atoms[x[0]], False)]); go(x[2], c + [(self.atoms[x[0]], True)])
        go(f, [])
        return out

    def show(self, f):
        if isinstance(f, int): return "always" if f else "never"
        return " or ".join("(" + " and ".join(("" if b else "not ") + showatom(a) for a, b in c) + ")" for c in self.cubes(f, 6))


def _k(x): return x if isinstance(x, int) else id(x) + 2


def showatom(a):
    if a[0] == "val": return "%s=%s" % (show(a[1]), a[2])
    if a[0] == "is": return "%s is %s" % (show(a[1]), a[2])
    return show(a[1])


class Guards:
    """path condition of every block; .at[b].  Free choices (nd edges, loop repetition) are unconstrained."""

    def __init__(self, v, bdd=None, values=None, split=False):
        self.split = split             # values that depend on the way taken are looked into
        self.v = v; self.b = bdd or BDD()
        self.dom = values if values is not None else {}
        self._collect()
        self._run()

    def _collect(self):
        v = self.v
        for b in v.rpo:
            t = v.fl.bbs[b]["t"]
            if t[0] == "switch":
                c = swterm(v, b)
                if c is None: continue
                c, _ = base(c)
                d = self.dom.setdefault(c, set())
                d.update(x for x, _ in t[3])

    def variants(self, c):
        """number of variants of the enumeration a discriminant term ranges over, if known"""
        return None

    def formula(self, c, val):
        """term c has value val (int)"""
        c, neg = base(c)
        if is_const(c): return int((c.a[0] == val) != neg)
        if isbool(c):
            f = self.boolean(c)
            return f if (val != 0) != neg else self.b.NOT(f)
        if c.op == "len" and val == 0 and c.a[0].op == "slice":
            from vals import bin_
            e = bin_("Eq", c, mk("const", 0, ""))
            if isbool(e): return self.boolean(e) if not neg else self.b.NOT(self.boolean(e))
        if self.split and c.op == "discr":
            # the alternative of a value that depends on the way taken
            y = self.into(c)
            if y is not None:
                f = self.merged(y, lambda o: self.formula(subst(c, {y: o}), val))
                if f is not None: return f if not neg else self.b.NOT(f)
        f = self.merged(c, lambda o: self.formula(o, val))
        if f is not None: return f if not neg else self.b.NOT(f)
        d = self.dom.setdefault(c, set())
        d.add(val)
        return self.b.var(("val", c, val))

    def into(self, c):
        """a value that depends on the way taken, of which the alternative asked for is, or is part of"""
        if c.a[0].op == "phi": return c.a[0]
        for t in subterms_cached(c):
            if t.op == "var" and t.a[0].op == "phi": return t.a[0]
        return None

    def merged(self, c, f):
        """a value that depends on the way taken: what holds on each way"""
        at = self.__dict__.get("at")
        if c.op != "phi" or at is None or c not in self.v.phis: return None
        ops = self.v.phis[c]; h = c.a[0]
        if h not in self.v.pos or any(p not in at or self.v.pos[p] >= self.v.pos[h] for p in ops): return None
        if c in self.__dict__.setdefault("open", set()): return None
        memo = self.__dict__.setdefault("ways", {})
        es = memo.get(h)
        if es is None:
            es, sofar = {}, 0
            for p in ops:
                e = self.phi_edge(p, h)
                if not (isinstance(self.b.AND(e, sofar), int) and self.b.AND(e, sofar) == 0): es = False; break
                es[p] = e; sofar = self.b.OR(sofar, e)
            memo[h] = es
        if not es or set(es) != set(ops): return None
        self.open.add(c)
        try: return self.b.any([self.b.AND(es[p], f(o)) for p, o in ops.items()])
        finally: self.open.discard(c)

    def boolean(self, c):
        """truth of a boolean term"""
        b = self.b
        f = self.merged(c, self.boolean)
        if f is not None: return f
        if c.op == "bin" and c.a[0] in ("Eq", "Lt"):
            from vals import bin_
            for i in (1, 2):
                x = c.a[i]
                if x.op == "phi" and x in self.v.phis and any(is_const(o) or o is c.a[3 - i] for o in self.v.phis[x].values()):
                    f = self.merged(x, lambda o: self.boolean(bin_(c.a[0], *(o if j == i else c.a[j] for j in (1, 2)))))
                    if f is not None: return f
                if c.a[0] == "Lt" and x.op == "bin" and x.a[0] in ("max", "min"):
                    fs = [self.boolean(bin_("Lt", *(o if j == i else c.a[j] for j in (1, 2)))) for o in x.a[1:]]
                    return b.any(fs) if (x.a[0] == "max") == (i == 2) else b.all(fs)
        if is_const(c): return int(bool(c.a[0]))
        if c.op == "un" and c.a[0] == "Not": return b.NOT(self.boolean(c.a[1]))
        if c.op == "bin" and c.a[0] == "BitAnd" and isbool(c.a[1]) and isbool(c.a[2]): return b.AND(self.boolean(c.a[1]), self.boolean(c.a[2]))
        if c.op == "bin" and c.a[0] == "BitOr" and isbool(c.a[1]) and isbool(c.a[2]): return b.OR(self.boolean(c.a[1]), self.boolean(c.a[2]))
        if c.op == "bin" and c.a[0] == "Eq":
            # being a given alternative
            for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                if isinstance(y, T) and y.op == "agg" and y.a[0] == OPT and x.op != "agg":
                    self.v.__dict__.setdefault("options", set()).add(x)
                    self.v.arity.setdefault(discr_(x), 2)
                    f = self.formula(discr_(x), y.a[1])
                    if y.a[2] == "None" or isinstance(f, int) and f == 0: return f
                    from vals import bin_
                    return b.AND(f, self.boolean(bin_("Eq", fld(var(x, "Some"), "0"), y.a[4][0])))
        if c.op == "bin" and c.a[0] == "Eq" and is_const(c.a[2]) and isinstance(c.a[2].a[0], int) and not isbool(c.a[1]):
            return self.formula(c.a[1], c.a[2].a[0])
        if c.op == "call" and c.a[0].startswith("core::ops::range::") and c.a[0].endswith("::contains") and len(c.a[1]) == 2:
            r, x = c.a[1]
            lo = hi = None; incl = False
            if r.op == "call" and r.a[0].endswith("RangeInclusive::<Idx>::new"): lo, hi, incl = r.a[1][0], r.a[1][1], True
            elif r.op == "agg" and "range::Range" in str(r.a[0]):
                d = dict(zip(r.a[3], r.a[4])); lo, hi = d.get("start"), d.get("end"); incl = "Inclusive" in str(r.a[0])
            elif r.op == "const" and isinstance(r.a[0], str) and r.a[0].startswith("bytes["):
                from vals import const as kc
                by = bytes(int(q) for q in r.a[0][6:-1].split(",")); incl = "RangeInclusive" in c.a[0]
                w = {True: {12: 4, 24: 8, 6: 2, 3: 1}, False: {8: 4, 16: 8, 4: 2, 2: 1}}[incl].get(len(by))
                if w: lo, hi = (kc(int.from_bytes(by[i * w:i * w + w], "little")) for i in (0, 1))
            if lo is not None or hi is not None:
                from vals import bin_
                f = 1
                if lo is not None: f = b.AND(f, b.NOT(self.boolean(bin_("Lt", x, lo))))
                if hi is not None: f = b.AND(f, b.NOT(self.boolean(bin_("Lt", hi, x))) if incl else self.boolean(bin_("Lt", x, hi)))
                return f
        return b.var(("true", c))

    def edge(self, blk, succ):
        t = self.v.fl.bbs[blk]["t"]
        if t[0] == "assert": return 1
        if t[0] != "switch": return 1
        c = swterm(self.v, blk)
        if c is None: return 1
        fs = []
        rest = 1
        for val, tgt in t[3]:
            f = self.formula(c, val)
            if tgt == succ: fs.append(self.b.AND(f, rest))
            rest = self.b.AND(rest, self.b.NOT(f))
        if t[4] == succ: fs.append(rest)
        return self.b.any(fs)

    def excl(self, f):
        """values of one term exclude one another"""
        b = self.b
        by = {}
        for a in b.support(f):
            if a[0] == "val": by.setdefault(a[1], []).append(a)
        for c, l in by.items():
            if len(l) < 2: continue
            one = 0; none = 1
            for a in l:
                x = b.var(a)
                one = b.OR(b.AND(one, b.NOT(x)), b.AND(none, x))
                none = b.AND(none, b.NOT(x))
            f = b.AND(f, b.OR(one, none))
            if c.op == "discr" and {x[2] for x in l} == set(range(len(l))):
                n = self.v.arity.get(c)
                if n == len(l) or n is None and len(l) == 2 and two(self.v, c): f = b.AND(f, one)
        return f

    def _run(self):
        v = self.v; b = self.b
        self.at = {x: 0 for x in v.rpo}
        self.at[v.rpo[0]] = 1
        for x in v.rpo:
            fs = [self.at[x]] if x == v.rpo[0] else []
            for p in v.preds[x]:
                if v.pos[p] >= v.pos[x]: continue
                if self.at[p] == 0 and isinstance(self.at[p], int): continue
                fs.append(self.excl(b.AND(self.at[p], self.edge(p, x))))
            self.at[x] = b.any(fs)

    def phi_edge(self, p, x): return self.excl(self.b.AND(self.at[p], self.edge(p, x)))

    def holds(self, blk, f):
        return self.b.implies(self.excl(self.b.AND(self.at[blk], 1)), f) or self.excl(self.b.AND(self.at[blk], self.b.NOT(f))) == 0

    def implied(self, f, g): return self.excl(self.b.AND(f, self.b.NOT(g))) == 0

    def show(self, blk): return self.b.show(self.at[blk])


TWO = {"Some", "None", "Ok", "Err", "Continue", "Break"}


def two(v, c):
    """the enumeration a discriminant ranges over has two alternatives"""
    n = v.arity.get(c)
    if n is not None: return n == 2
    if nvar(v, c) == 2: return True
    w = v.__dict__.get("_variantnames")
    if w is None:
        w = v._variantnames = {}
        for b in v.rpo:
            for e in v.ev[b]:
                for x in e[1:]:
                    for q in (subterms_cached(x) if isinstance(x, T) else ()):
                        if q.op == "var": w.setdefault(q.a[0], set()).add(q.a[1])
        for ph, ops in v.phis.items():
            for x in ops.values():
                for q in subterms_cached(x):
                    if q.op == "var": w.setdefault(q.a[0], set()).add(q.a[1])
    if w.get(c.a[0], set()) & TWO: return True
    x = c.a[0]
    if x.op == "phi":
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y in seen: continue
            seen.add(y)
            if y.op == "phi": st += list(v.phis.get(y, {}).values())
            elif y.op == "agg" and y.a[2] in TWO: return True
    return False


def swterm(v, b):
    for e in reversed(v.ev[b]):
        if e[0] == "switch": return e[1]
    return None


def base(c):
    neg = False
    while c.op == "un" and c.a[0] == "Not": c = c.a[1]; neg = not neg
    return c, neg


def isbool(c):
    if c.op == "call": return isinstance(c.a[0], str) and c.a[0].startswith("core::ops::range::") and c.a[0].endswith("::contains")
    return c.op == "bin" and c.a[0] in ("Eq", "Lt") or c.op == "un" and c.a[0] == "Not" or \
        c.op == "bin" and c.a[0] in ("BitAnd", "BitOr") and isbool(c.a[1]) and isbool(c.a[2])


# ---------- repeated tests ----------
def settled(v):
    """switches whose outcome follows from tests already made on every way in: {block: [possible successors]}"""
    fl = v.fl
    loops = loop_kills(v)
    facts = {}
    res = {}
    for b in v.rpo:
        ps = [p for p in v.preds[b] if v.pos[p] < v.pos[b]]
        cur = None
        for p in ps:
            f = facts.get((p, b))
            if f is None: continue
            if cur is None: cur = dict(f)
            else:
                for k in list(cur):
                    if f.get(k) == cur[k]: continue
                    a, c = cur[k], f.get(k)
                    if c is None: del cur[k]
                    elif a[0] == "not" and c[0] == "not":
                        n = a[1] & c[1]
                        if n: cur[k] = ("not", n)
                        else: del cur[k]
                    elif a[0] == "is" and c[0] == "not" and a[1] not in c[1]: cur[k] = c
                    elif a[0] == "not" and c[0] == "is" and c[1] not in a[1]: pass
                    else: del cur[k]
        cur = cur or {}
        if b in loops:
            for t in loops[b]: killf(cur, t)
        for ph in [k for k in cur if any(x.op == "phi" and x.a[0] == b for x in subterms_cached(k))]: cur.pop(ph)
        for e in v.ev[b]:
            if e[0] == "kill": killf(cur, e[1])
            elif e[0] == "call":
                r = e[3]
                if isinstance(r, T) and r.op in ("call", "iternext"):
                    for k in [k for k in cur if mentions(k, r)]: del cur[k]
                    if r.op == "iternext":
                        el = mk("elem", r.a[0], r.a[1])
                        for k in [k for k in cur if mentions(k, el)]: del cur[k]
        t = fl.bbs[b]["t"]
        if t[0] != "switch":
            for s in fsuccs(t): facts[(b, s)] = cur
            continue
        c = swterm(v, b); c, neg = base(c)
        known = cur.get(c)
        outs = {}
        for val, tgt in t[3]:
            vv = (1 - val) if neg else val
            ok = known is None or (known[0] == "is" and known[1] == vv) or (known[0] == "not" and vv not in known[1])
            if ok: outs.setdefault(tgt, []).append(("is", vv))
        arms = {(1 - val) if neg else val for val, _ in t[3]}
        if isbool(c) and len(arms) == 1: oth = ("is", 1 - next(iter(arms)))
        else: oth = ("not", frozenset(arms) | (known[1] if known and known[0] == "not" else frozenset()))
        if c.op == "discr" and oth[0] == "not":
            n = nvar(v, c)
            if n:
                left = set(range(n)) - set(oth[1])
                if len(left) == 1: oth = ("is", left.pop())
                elif not left: oth = None
        if oth and known:
            if known[0] == "is" and (oth[0] == "is" and oth[1] != known[1] or oth[0] == "not" and known[1] in oth[1]): oth = None
            elif known[0] == "is": oth = known
            elif oth[0] == "is" and oth[1] in known[1]: oth = None
        if oth: outs.setdefault(t[4], []).append(oth)
        if known is not None and len(outs) < len(set(fsuccs(t))): res[b] = list(outs)
        for s in set(fsuccs(t)):
            f = dict(cur)
            fs = outs.get(s)
            if fs and len(fs) == 1: f[c] = fs[0]
            facts[(b, s)] = f if fs else None
    return res


def nvar(v, c):
    x = c.a[0]
    if x.op in ("iternext", "lookup"): return 2
    if x.op == "call":
        rp = x.a[0]
        if rp.startswith(("$try", "$apply")): return 2
    return None


def killf(cur, t):
    lf = lastfield(t)
    for k in [k for k in cur]:
        for s in subterms_cached(k):
            if s is t or (s.op in ("fld", "at", "elem", "param", "var", "lookup") and lastfield(s) == lf and lf is not None and not disjoint(s, t)):
                del cur[k]; break


def loop_kills(v):
    """places that change inside each loop, by loop head"""
    res = {}
    for b in v.rpo:
        for s in fsuccs(v.fl.bbs[b]["t"]):
            if s in v.pos and v.pos[s] <= v.pos[b]:
                body = {s, b}; st = [b]
                while st:
                    x = st.pop()
                    if x == s: continue
                    for p in v.preds[x]:
                        if p not in body: body.add(p); st.append(p)
                ks = [e[1] for x in body for e in v.ev[x] if e[0] == "kill"]
                res.setdefault(s, []).extend(ks)
    return res
