"""The normal form of what a function returns: for each field of the result, which source value it holds under which source alternatives.

Value-preserving steps (clones, casts, conversions verified on their own, UTF-8 and string views) are the identity, so that the
normal form depends on where a value comes from and not on how it is copied."""
import itertools, re
from facts import norm_ty
from vals import *
from guard import Guards, base, isbool
from rules_misc import leaves, succmap, uncasted

IDENT = re.compile(
    r"::clone$|::cloned$|::copied$|::to_string$|::to_owned$|::to_vec$|::into_owned$|::as_str$|::as_ref$|::as_slice$|::as_bytes$|::deref$|::borrow$|core::convert::Into<.*>::into$|^<.* as core::convert::From<.*>>::from$"
    r"|^core::str::converts::from_utf8$|::from_utf8$|String::from_utf8_lossy$|::into_boxed_str$|::as_deref$|::into_iter$|::iter$|::as_path$|::to_path_buf$")
CONV = re.compile(r"^\$(from|into|try_from|try_into)<")


PEEK = re.compile(r"dbg_peek_(bits|hex)$")
FIRST = re.compile(r"^each Range\(start: 0, end: (\d+)\)$")
UPTO = re.compile(r"^Range(?:To)?\((?:start: 0, )?end: (\d+)\)$")


WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


def narrows(frm, to):
    """the conversion drops the upper bits"""
    return WIDTH.get(to, 999) < WIDTH.get(frm, 0)


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([": d += 1
        if c in ">)]": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


class Canon:
    def __init__(self, F, fl, v, conversions=None, split=False):
        self.F, self.fl, self.v = F, fl, v
        self.G = Guards(v, split=split); self.b = self.G.b
        self.S = succmap(v)
        self.ok = conversions          # conversions that are checked on their own (None: all)
        self.memo = {}
        self.problems = []
        self.narrow = False            # conversions to narrower numbers are written out
        self.rep = {}; self.over = {}
        self.care = 1                  # what is known to hold where the value is used
        self.opaque = None             # aggregates that are listed on their own
        self.redundant()
        self.iters = {}; self.sites = {}
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] == "call" and e[1] == "$iternext" and len(e[2]) > 1: self.sites[show(e[2][1])] = e[2][0]
                if e[0] == "call" and e[1] == "$iternext": self.iters.setdefault((e[2][0], e[2][1]), []).append((b, e))

    def redundant(self):
        """joins that only ever pass on one value"""
        ch = True
        while ch:
            ch = False
            for x, ops in self.v.phis.items():
                if x in self.rep: continue
                w = {self.find(o) for o in ops.values()} - {x}
                if len(w) == 1: self.rep[x] = w.pop(); ch = True

    def find(self, x):
        while x in self.rep: x = self.rep[x]
        return x

    # ---------- types ----------
    def ty(self, x):
        """declared type of a place reached from a parameter"""
        if x.op == "param":
            return self.fl.locals[x.a[0]] if x.a[0] < len(self.fl.locals) else None
        if x.op == "var": return self.ty(x.a[0])
        if x.op in ("elem", "at"):
            t = self.strip(self.ty(x.a[0]))
            if t is None: return None
            if self.adt(t + "Item"): return t + "Item"
            m = re.match(r"(?:alloc::vec::Vec|\[|std::vec::Vec)<?(.*?)(?:, alloc::alloc::Global)?[>\]]$", t)
            return m.group(1) if m else None
        if x.op == "fld":
            t = self.strip(self.ty(x.a[0]))
            if t is None: return None
            if t.startswith("core::option::Option<"): return split_args(t[t.index("<") + 1:-1])[0]
            a = self.adt(t)
            if a is None: return None
            vn = x.a[0].a[1] if x.a[0].op == "var" else None
            for q in a["variants"]:
                if vn is not None and q["name"] != vn and len(a["variants"]) > 1: continue
                for f in q["fields"]:
                    if f[0] == x.a[1]: return f[1]
        return None

    @staticmethod
    def strip(t):
        while t is not None and t.startswith("&"): t = re.sub(r"^&('\w+ )?(mut )?", "", t)
        return t

    def adt(self, t):
        t = t.split("<")[0]
        for k in (t, "s2protocol::" + t, t.replace("s2protocol::", "", 1)):
            if k in self.F.adts: return self.F.adts[k]
        return None

    def variants(self, x):
        t = self.strip(self.ty(x))
        if t is None: return None
        if t.startswith("core::option::Option<"): return ["None", "Some"]
        if t.startswith("core::result::Result<"): return ["Ok", "Err"]
        a = self.adt(t)
        return [q["name"] for q in a["variants"]] if a and len(a["variants"]) > 1 else None

    # ---------- values ----------
    def fallible(self, x):
        return x.op == "call" and (CONV.match(x.a[0]) or x.a[0].endswith("from_utf8") or "$try" in x.a[0])

    def val(self, x, b=None):
        """canonical text of a value"""
        k = x = self.find(x)
        if x in self.names: return self.names[x]
        if x in self.over: return self.val(self.over[x], b)
        if k in self.memo: return self.memo[k]
        self.memo[k] = "…"
        r = self._val(x, b)
        r = self.memo[k] = self.alias.get(r, r)
        return r

    def fits(self, x, ty):
        """the value is known not to lose bits: masked to fewer, or the number of a user (five bits of the header of an event)"""
        x = self.find(x)
        while x.op == "cast": x = self.find(x.a[0])
        if x.op == "bin" and x.a[0] == "BitAnd": return any(is_const(q) and isinstance(q.a[0], int) and 0 <= q.a[0] <= INTS[ty][1] for q in x.a[1:])
        return x.op == "fld" and x.a[1] == "user_id"

    whole_numbers = False              # where a fraction is cut off is written down

    def lossy(self, x):
        a = x.a
        if self.whole_numbers and a[2] in ("f32", "f64") and a[1] not in ("f32", "f64"): return True
        return self.narrow and narrows(a[2], a[1]) and not self.fits(a[0], a[1])

    def _val(self, x, b):
        o, a = x.op, x.a
        if o == "konst" and len(str(a[0])) > 400: return "embedded data"
        if o == "const": return "default" if a[0] == "" else repr(a[0])
        if o == "default": return "default"
        if o == "param": return "$%d" % a[0]
        if o == "cast":
            if self.lossy(x): return "%s(%s)" % (a[1], self.val(a[0], b))
            return self.val(a[0], b)
        if o == "fld":
            if self.recur is not None:
                r, p = self.path(x)
                if r.op == "phi" and r in self.v.phis and self.back(r)[1]: return self.carried(r, p)
            if a[1] == "0" and a[0].op == "call" and PEEK.search(a[0].a[0]) and len(a[0].a[1]) == 2: return self.val(a[0].a[1][0], b)
            y = self.unchanged(x)
            if y is not x: return self.val(y, b)
            y = a[0]
            if y.op == "var" and y.a[1] in ("Ok", "Continue") and a[1] == "0": return self.val(y.a[0], b)
            if y.op == "var" and y.a[1] == "Some" and a[1] == "0": return self.val(y.a[0], b) + "?"
            if a[1] == "value": return self.val(y, b)
            return self.val(y, b) + "." + a[1]
        if o == "var": return self.val(a[0], b) + "@" + a[1]
        if o == "elem":
            if a[1] == "any": return "any " + self.val(self.source(a[0]), b)
            q = self.put(x)
            if q is not None: return self.val(q[0], b)
            w = self.val(self.source(a[0]), b)
            # an element of a list that was put together here is one of the things put into it
            return w[5:] if w.startswith("[] + ") else "each " + w
        if o == "at":
            i = self.val(a[1], b)
            m = FIRST.match(i)
            if m: return "each " + self.firsts(self.val(a[0], b), m.group(1))
            w = self.val(a[0], b)
            if i == "index in " + w: return "each " + w
            return "%s[%s]" % (w, i)
        if o == "lookup": return "%s.get(%s)" % (self.val(a[0], b), self.val(a[1], b))
        if o == "iternext": return "next %s" % self.val(a[0], b)
        if o == "agg":
            if a[2] in ("Ok", "Continue") and len(a[4]) == 1: return self.val(a[4][0], b)
            if a[2] == "None": return "None"
            if self.opaque and self.opaque(a[0]): return a[0].split("::")[-1] + "#"
            if a[2] and not a[4]: return a[2]
            return "%s(%s)" % (a[2] or a[0].split("::")[-1], ", ".join("%s%s" % (n + ": " if n and not n.isdigit() else "", self.val(q, b)) for n, q in zip(a[3], a[4])))
        if o == "call":
            n = a[0]
            if CONV.match(n) and len(a[1]) == 1:
                if self.ok is not None and not self.ok(n): return "unchecked %s(%s)" % (n, self.val(a[1][0], b))
                return self.val(a[1][0], b)
            if len(a[1]) == 1 and IDENT.search(n): return self.val(a[1][0], b)
            m = re.match(r"(.*)::\{closure#0\}$", n)
            if m and len(a[1]) == 2 and a[1][0].op == "call" and a[1][0].a[0] == m.group(1) and a[1][1].op == "agg" and a[1][1].a[0] == "tuple":
                return "$apply(%s, %s)" % (self.val(a[1][0], b), ", ".join(self.val(q, b) for q in a[1][1].a[4]))
            if n == "alloc::fmt::format" or n.endswith("fmt::Arguments::<'a>::new"): return self.fmt(x, b)
            if n.endswith("vec::from_elem") and len(a[1]) == 2: return "[%s for each Range(start: 0, end: %s)]" % (self.val(a[1][0], b), self.val(a[1][1], b))
            if re.search(r"RangeInclusive.*::new$", n) and len(a[1]) == 2:
                e = self.find(a[1][1])
                return "Range(start: %s, end: %s)" % (self.val(a[1][0], b), e.a[0] + 1 if e.op == "const" and isinstance(e.a[0], int) else "(1 Add %s)" % self.val(e, b))
            return "%s(%s)" % (short(n), ", ".join(self.val(q, b) for q in a[1] if isinstance(q, T)))
        if o == "bin" and self.recur is not None and a[0] in ("Add", "Sub"): return self.sum(x, b)
        if o == "bin" and self.recur is not None and a[0] in ("BitOr", "BitXor") and (self.beside(a[1], a[2], b) or self.beside(a[2], a[1], b)): return self.sum(bin_("Add", a[1], a[2]), b)
        if o == "bin":
            l, r = self.val(a[1], b), self.val(a[2], b)
            if a[0] in ("min", "max"): return "%s(%s)" % (a[0], ", ".join(sorted((l, r))))
            if a[0] in ("Eq", "Ne", "Add", "Mul", "BitAnd", "BitOr") and r < l: l, r = r, l
            if a[0] == "Mul" and not self.whole_numbers and self.recur is None:
                # a power of two as factor
                for k, y in ((l, r), (r, l)):
                    if k.isdigit() and int(k) >= 2 and int(k) & (int(k) - 1) == 0: return "(%s Shl %d)" % (y, int(k).bit_length() - 1)
            w = " of %s" % " or ".join(sorted(SHL[x])) if a[0] == "Shl" and x in SHL and self.whole_numbers else ""
            return "(%s %s%s %s)" % (l, a[0], w, r)
        if o == "un": return "%s(%s)" % (a[0], self.val(a[1], b))
        if o == "len": return "len(%s)" % self.val(a[0], b)
        if o == "newcoll": return "[]"
        if o == "iterindex":
            src = self.sites.get(show(x)[10:-1])
            return "index in " + self.val(src, b) if src is not None else show(x)
        if o == "discr": return "discr(%s)" % self.val(a[0], b)
        if self.lists and self.recur is None and o in ("phi", "mut") and self.listlike(x): return self.list_text(x, b)
        if o == "phi" and self.recur is not None and x in self.v.phis and self.back(x)[1]: return self.carried(x, ())
        if o == "phi": return self.join(x)
        if o == "mut" and re.search(r"::(append|extend|extend_from_slice)$", a[1]) and len(a[2]) == 1 and self.val(a[0], b) == "[]": return self.val(a[2][0], b)
        if o == "mut" and a[1].endswith("::truncate") and len(a[2]) == 1:
            # cut to a length it cannot exceed
            y = self.find(a[0])
            while y.op in ("fld", "var"): y = self.find(y.a[0])
            if y.op == "call" and y.a[0].endswith("get_matching_files") and len(y.a[1]) == 3 and self.val(y.a[1][1], b) == self.val(a[2][0], b): return self.val(a[0], b)
        if o == "mut":
            k = self.ordered(a)
            if k: return "%s sorted by %s" % (self.val(a[0], b), k)
            if a[1].endswith("::truncate") and len(a[2]) == 1 and " sorted by " in self.val(a[0], b): return "[each %s]" % self.firsts(self.val(a[0], b), self.val(a[2][0], b))
            return "%s!%s(%s)" % (self.val(a[0], b), short(a[1]), ", ".join(self.val(q, b) for q in a[2]))
        if o == "upd":
            y, ch = x, []
            while y.op == "upd": ch += self.changes(y.a[0], y); y = self.find(y.a[0])
            new = {}
            for p, q in ch: new.setdefault(p, q)
            w = self.val(y, b)
            if w.endswith("}") and "{" in w and self.looped(y) is not None:
                # what the loop it comes from replaces is replaced again here
                _, old = self.looped(y)
                w = self.val(self.looped(y)[0], b)
                for p, q in old: new.setdefault(p, q)
            return "%s{%s}" % (w, ", ".join("%s:=%s" % (".".join(p), self.val(q, b)) for p, q in sorted(new.items())))
        if o == "slice" and isinstance(a[1], T):
            m = UPTO.match(self.val(a[1], b))
            if m: return self.firsts(self.val(a[0], b), m.group(1))
        if o == "slice": return "slice(%s)" % ", ".join(self.val(q, b) for q in a if isinstance(q, T))
        return show(x)

    # ---------- values carried around loops, as a system of equations ----------
    recur = None                       # names of the carried values, if they are to be named

    def beside(self, x, y, b):
        """the one has only bits above those of the other, which is the number made of so many bits"""
        x, y = self.plainly(x), self.plainly(y)
        if x.op != "bin" or x.a[0] != "Shl" or y.op != "fld" or y.a[1] != "1": return False
        y = self.find(y.a[0])
        if y.op == "fld" and y.a[1] == "0": y = self.find(y.a[0])
        if y.op == "var": y = self.find(y.a[0])
        if y.op != "call" or not y.a[1]: return False
        k = y.a[1][0] if y.a[0].endswith("take::{closure#0}") else None
        return k is not None and k.op == "call" and len(k.a[1]) == 1 and self.val(k.a[1][0], b) == self.val(x.a[2], b)

    def carried(self, x, p):
        return self.recur.setdefault((x, p), "v?")

    def sum(self, x, b):
        """a sum, whatever the order of its terms"""
        t, n = {}, 0
        def add(x, k):
            nonlocal n
            x = self.find(x)
            while x.op == "cast" and not self.lossy(x): x = self.find(x.a[0])
            if x.op == "bin" and x.a[0] in ("Add", "Sub"): add(x.a[1], k); add(x.a[2], k if x.a[0] == "Add" else -k)
            elif x.op == "const" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool): n += k * x.a[0]
            else: w = self.val(x, b); t[w] = t.get(w, 0) + k
        add(x, 1)
        # a quotient and one more where there is a rest
        for w in [w for w, k in t.items() if k == 1 and re.match(r"\(.* Div \d+\)$", w)]:
            y, d = w[1:-1].rsplit(" Div ", 1)
            z = "(%s Rem %s) Eq 0" % (y, d)
            for q in ("Not(%s)" % z, "Not((%s))" % z, "(%s)" % ("Not(%s)" % z), "{no -> 1; yes -> 0} by (%s)" % z, "{0 -> 0; other -> 1} by (%s Rem %s)" % (y, d)):
                if t.get(q) == 1 and w in t: del t[w], t[q]; u = "num::div_ceil(%s, %s)" % (y, d); t[u] = t.get(u, 0) + 1
        l = ["%s%s" % ({1: "", -1: "-"}.get(k, "%d*" % k), w) for w, k in sorted(t.items(), key=lambda q: (-q[1], q[0])) if k]
        if n or not l: l.append(str(n))
        return l[0] if len(l) == 1 else "(%s)" % " + ".join(l)

    def equations(self, text):
        """`text()` with the carried values named, and what each of them starts as and becomes; None if it does not settle"""
        self.recur = {}
        for _ in range(12):
            self.memo = {}; self.__dict__["_plain"] = {}; self.b_names = {}
            before = dict(self.recur)
            t = text()
            eq = {}
            while set(eq) != set(self.recur):
                for k in [k for k in self.recur if k not in eq]: eq[k] = self.equation(*k)
            # the ones met first in the text come first; what tells them apart is what is written about them
            now = {k: before.get(k, "v?") for k in eq}
            kinds = sorted({(now[k], eq[k]) for k in eq}, key=lambda q: (t.find(q[0]) if q[0] != "v?" and q[0] in t else 1 << 30, q))
            new = {k: "v%d" % (kinds.index((now[k], eq[k])) + 1) for k in eq}
            same = new == before
            self.recur = new
            if same: break
        else: return None
        return t, ["%s %s" % q for q in sorted({(new[k], eq[k]) for k in eq})]

    def any(self, l):
        f = 0
        for g in l: f = self.b.OR(f, g)
        return f

    def equation(self, x, p):
        init, rec = self.back(x)
        h = x.a[0]
        def part(o):
            for f in p: o = fld(o, f)
            return o
        old, memo = self.care, self.memo
        self.care, self.memo = 1, {}
        first = self.tabulate([(self.G.phi_edge(q, h), self.val(part(o))) for q, o in init.items()], self.any([self.G.phi_edge(q, h) for q in init])) if len(init) > 1 else self.val(part(next(iter(init.values()))))
        self.care = self.G.at[h]
        rows = []
        for q, o in rec.items():
            f = self.G.phi_edge(q, h)
            self.rows(None, part(o), f, "", rows)
        by = {}
        for r, c, w in rows: by.setdefault(r, []).append((c, w))
        on = 0
        for q in rec: on = self.b.OR(on, self.G.phi_edge(q, h))
        nxt = "; ".join(("%s: " % r if r else "") + self.tabulate(l, on) for r, l in sorted(by.items()))
        go = self.condition(on, self.G.at[h])
        self.care, self.memo = old, memo
        return "= %s, then %s%s" % (first, nxt, " while " + go if go else "")

    closure = None                     # what a closure returns

    def ordered(self, a):
        """the order a list is brought into"""
        m = re.search(r"::(sort\w*)$", a[1])
        if not m or self.closure is None or len(a[2]) != 1 or a[2][0].op != "closure": return None
        w = self.closure(a[2][0])
        if "key" in m.group(1):
            r = re.match(r"Reverse\((.*)\)$", w)
            return ("falling " + r.group(1) if r else "rising " + w).replace("$2", "it")
        r = re.match(r"(?:Ord|\w+)::(?:cmp|partial_cmp|total_cmp)\(\$(\d)(.*), \$(\d)(.*)\)$", w)
        if r and r.group(2) == r.group(4) and {r.group(1), r.group(3)} == {"2", "3"}: return ("rising it" if r.group(1) == "2" else "falling it") + r.group(2)
        return None

    def counted(self, o):
        """the element that a map of numbers counts one more of"""
        if not o.a[1].endswith("::entry") or len(o.a[2]) != 1: return None
        m = self.__dict__.get("_counts")
        if m is None:
            m = self._counts = {}
            for b in self.v.rpo:
                for e in self.v.ev[b]:
                    if e[0] != "store": continue
                    x, y = e[1], e[2]
                    if x.op == "call" and re.search(r"::(or_insert|or_default|or_insert_with)$", x.a[0]) and len(x.a[1]) <= 2:
                        n = x.a[1][1] if len(x.a[1]) == 2 else None
                        zero = n is None or is_const(n) and n.a[0] == 0
                        one = y.op == "bin" and y.a[0] == "Add" and x in y.a[1:] and any(is_const(q) and q.a[0] == 1 for q in y.a[1:])
                        m.setdefault(x.a[1][0], []).append(zero and one)
        for x, l in m.items():
            if x.op == "call" and x.a[0].endswith("::entry") and len(x.a[1]) == 2 and x.a[1][1] is o.a[2][0] and x.a[1][0] is o.a[0]: return o.a[2][0] if l == [True] else None
        return None

    whole = {}                         # how many elements a list has, where that is known

    def firsts(self, w, n):
        """the first elements of a list"""
        return w if str(self.whole.get(w.rsplit(".", 1)[-1])) == n else "%s[..%s]" % (w, n)

    def fmt(self, x, b):
        """formatted text: the pieces that go into it"""
        out = []
        for q in sorted((q for q in subterms_cached(x) if q.op == "call" and "fmt::rt::Argument" in q.a[0]), key=lambda q: show(q)):
            out.append("%s %s" % (q.a[0].split("new_")[-1], self.val(q.a[1][0], b)))
        t = sorted(str(q.a[0]) for q in subterms_cached(x) if q.op == "const" and isinstance(q.a[0], str))
        return "text(%s; %s)" % (", ".join(out), " ".join(t))

    # ---------- records that are changed step by step ----------
    def changes(self, base, o):
        """the places of `base` that `o` replaces, with their values; None if it is not made from it"""
        o = self.find(o); base = self.find(base)
        if o is base: return []
        if o.op != "upd": return None
        k = o.a[1][1] if isinstance(o.a[1], tuple) else o.a[1]
        sub = var(o.a[0], o.a[1][1]) if isinstance(o.a[1], tuple) else fld(o.a[0], o.a[1])
        inner = self.changes(sub, o.a[2]) if o.a[2].op == "upd" else None
        here = [((k,), o.a[2])] if inner is None else [((k,) + p, q) for p, q in inner]
        rest = self.changes(base, o.a[0])
        return None if rest is None else here + [r for r in rest if r[0] not in {h[0] for h in here}]

    def looped(self, x):
        """(what a record is before the loop, what each round may replace in it), for a record that the loop only changes in places"""
        if x.op != "phi" or x not in self.v.phis: return None
        m = self.__dict__.setdefault("_looped", {})
        if x in m: return m[x]
        m[x] = None
        init, rec = self.back(x)
        i = {self.find(o) for o in init.values()}
        if not rec or len(i) != 1: return None
        out, seen, st = [], set(), [self.find(o) for o in rec.values()]
        while st:
            o = st.pop()
            if o is x or o in seen: continue
            seen.add(o)
            if o.op == "phi" and o in self.v.phis: st.extend(self.find(q) for q in self.v.phis[o].values()); continue
            y = o
            while y.op == "upd": y = self.find(y.a[0])
            if o.op != "upd" or not (y is x or y.op == "phi" and y in self.v.phis): return None
            c = self.changes(y, o)
            if c is None: return None
            out += [z for z in c if z not in out]
            st.append(y)
        m[x] = (i.pop(), out)
        return m[x]

    def path(self, x):
        p = []
        while x.op in ("fld", "var"): p.append(x.a[1]); x = self.find(x.a[0])
        return x, tuple(p[::-1])

    def unchanged(self, x, alt=False):
        """a part of a record the loop changes elsewhere is what it was before the loop"""
        r, p = self.path(x)
        n = 0
        while n < 8:
            l = self.looped(r)
            if l is None: break
            for q, _ in l[1]:
                k = min(len(p), len(q))
                if p[:k] == q[:k] and not (alt and len(q) > len(p)): return x
            r = l[0]; n += 1
        if n == 0: return x
        y = self.find(r)
        tail = None
        parts = []
        while x.op in ("fld", "var"): parts.append(x); x = self.find(x.a[0])
        for z in reversed(parts): y = fld(y, z.a[1]) if z.op == "fld" else var(y, z.a[1])
        return y

    # ---------- lists that are walked ----------
    def source(self, x, chosen=False):
        """what is walked: of several alternatives the one that is not empty; elements taken out while walking do not count"""
        x = self.find(x)
        n = 0
        while x.op == "phi" and x in self.v.phis and n < 8:
            if x in self.over:
                if not chosen: break
                x = self.find(self.over[x]); n += 1; continue
            init, rec = self.back(x)
            if rec:
                ok = all(self.find(o) is x or self.taken(o, x) for o in rec.values())
                i = {self.find(o) for o in init.values()}
                if not ok or len(i) != 1: break
                x = i.pop()
            else:
                full = {q for q in (self.find(o) for o in init.values()) if not self.empty(q)}
                if len(full) != 1 or len(full) == len({self.find(o) for o in init.values()}): break
                x = full.pop()
            n += 1
        return x

    def empty(self, q): return q.op in ("newcoll", "default") or q.op == "const" and q.a[0] == "" or q.op == "agg" and q.a[0] == "array" and not q.a[4]

    def taken(self, o, x, seen=()):
        o = self.find(o)
        if o is x: return True
        if o in seen: return True
        if o.op == "mut" and o.a[1] == "$retain_remove": return self.taken(o.a[0], x, seen)
        if o.op == "phi" and o in self.v.phis: return all(self.taken(q, x, seen + (o,)) for q in self.v.phis[o].values())
        return False

    def nonempty(self, x):
        """when the walked list is the one that is not empty"""
        x = self.find(x)
        f = 1
        for _ in range(8):
            if x.op != "phi" or x not in self.v.phis: return f
            init, rec = self.back(x)
            if rec:
                i = {self.find(o) for o in init.values()}
                if len(i) != 1 or not all(self.taken(o, x) for o in rec.values()): return f
                x = i.pop(); continue
            if self.source(x) is x: return f
            g = 0; nx = None
            for p, o in init.items():
                o = self.find(o)
                if not self.empty(o): g = self.b.OR(g, self.G.phi_edge(p, x.a[0])); nx = o
            f = self.b.AND(f, g); x = nx
        return f

    def put(self, x):
        """(value, condition, where) for the one kind of element a list made here has"""
        m = self.__dict__.setdefault("_put", {})
        x0, x = x, (x, frozenset(self.over.items())) if self.over else x
        if x in m: return m[x]
        m[x] = None
        s = self.source(x0.a[0], True)
        if s.op == "phi" and s in self.v.phis:
            init, rec = self.back(s)
            if rec and all(self.empty(self.find(o)) for o in init.values()):
                out = []
                if self.puts(s, rec.values(), out, set()) and len({q for q, _ in out}) == 1:
                    f = 0
                    for _, site in out: f = self.b.OR(f, self.G.at.get(site, 1))
                    # what is known where this one of several lists is walked
                    for y, o in self.over.items():
                        e = 0
                        for p, q in self.v.phis[y].items():
                            if self.find(q) is o: e = self.b.OR(e, self.G.phi_edge(p, y.a[0]))
                        if isinstance(e, int) or isinstance(f, int): continue
                        for a in self.b.support(e):
                            k = self.b.var(a)
                            if self.b.implies(e, k): f = self.b.restrict(f, {a: True})
                            elif self.b.implies(e, self.b.NOT(k)): f = self.b.restrict(f, {a: False})
                            if isinstance(f, int): break
                    m[x] = (out[0][0], f)
        return m[x]

    def puts(self, s, ops, out, seen):
        for o in ops:
            o = self.find(o)
            if o is s or o in seen: continue
            seen.add(o)
            if o.op == "phi" and o in self.v.phis:
                if not self.puts(s, self.v.phis[o].values(), out, seen): return False
            elif o.op == "mut" and len(o.a) > 3 and short(o.a[1]).endswith(("::push", "::push_back")) and len(o.a[2]) == 1:
                if (o.a[2][0], o.a[3]) not in out: out.append((o.a[2][0], o.a[3]))
                if not self.puts(s, [o.a[0]], out, seen): return False
            else: return False
        return True

    def walked(self, f):
        """what it takes for the walks that a condition is under to have an element"""
        seen = set()
        while True:
            new = [a for a in self.b.support(f) if a not in seen and a[0] == "val" and a[1].op == "discr" and a[1].a[0].op == "iternext" and a[2] in (0, 1)]
            if not new: break
            for a in new:
                seen.add(a)
                y = a[1].a[0]
                e = mk("elem", y.a[0], y.a[1])
                g = self.nonempty(y.a[0])
                q = self.put(e)
                if q is not None: g = self.b.AND(g, self.walked(q[1]))
                if isinstance(g, int): continue
                pos = self.b.var(a) if a[2] == 1 else self.b.NOT(self.b.var(a))
                # where the walk has an element
                f = self.b.ite(pos, self.b.AND(f, g), f)
        if seen: f = self.b.exists(f, list(seen))
        return f

    # ---------- lists that are put together ----------
    lists = False                      # lists made here are given by what goes into them

    LISTOP = re.compile(r"(::|^)(push|push_back|append|extend|extend_from_slice|sort|sort_unstable|dedup)$|^\$retain_remove$")

    def listlike(self, x, seen=None):
        """a list that starts empty here and only has elements added, taken out and ordered; the number of steps, None if it is not one"""
        m = self.__dict__.setdefault("_ll", {})
        x = self.find(x)
        if x in m: return m[x]
        seen = seen if seen is not None else set()
        if x in seen: return 0
        seen.add(x)
        r = None
        if self.empty(x) and x.op != "default": r = 1
        elif x.op == "mut" and len(x.a) > 3 and self.LISTOP.search(x.a[1]): r = self.listlike(x.a[0], seen)
        elif x.op == "phi" and x in self.v.phis:
            q = [self.listlike(o, seen) for o in self.v.phis[x].values()]
            r = None if None in q else max(q)
        if r is None or len(seen) == 1 or x.op != "phi": m[x] = r
        return r

    def parts(self, x, seen=()):
        """[(what, text, condition, place)] in the order in which it is done"""
        x = self.find(x)
        if x.op == "mut":
            out = list(self.parts(x.a[0], seen))
            n, site = short(x.a[1]).split("::")[-1], x.a[3]
            f = self.G.at.get(site, 1)
            q = self.find(x.a[2][0]) if x.a[2] else None
            if n in ("push", "push_back"):
                s = self.find(q.a[0]) if q.op == "elem" else None
                if s is not None and self.listlike(s) and self.put(q) is None: out += self.poured(s, self.apart_from(f, q), site)
                else: out.append(("+", q, f, (site,)))
            elif n in ("append", "extend", "extend_from_slice"):
                if self.listlike(q): out += self.poured(q, f, site)
                else: out.append(("all", q, f, (site,)))
            elif n == "$retain_remove": out.append(("-", q, self.about(f, q), (site,)))
            else: out.append(("sort" if n.startswith("sort") else n, None, f, (site,)))
            return out
        if x.op == "phi" and x in self.v.phis:
            if x in seen: return []
            init, rec = self.back(x)
            out = []
            def add(l, c):
                c = self.done(c)
                for w, q, f, s in l:
                    f = self.b.AND(f, c)
                    for i, o in enumerate(out):
                        if o[0] == w and o[1] is q and o[3] == s: out[i] = (w, q, self.b.OR(o[2], f), s); break
                    else: out.append((w, q, f, s))
            if rec:
                for p, o in init.items(): add(self.parts(o, seen + (x,)), 1)
                for p, o in rec.items(): add(self.parts(o, seen + (x,)), 1)
            else:
                for p, o in self.v.phis[x].items():
                    l = self.parts(o, seen + (x,))
                    add(l, self.G.phi_edge(p, x.a[0]) if not seen else 1)
            return sorted(out, key=lambda o: [self.v.pos[s] for s in reversed(o[3])]) if rec or len(out) > 1 else out
        return []

    def poured(self, s, f, site):
        """the elements of one list go into another"""
        f = self.done(f)
        return [(w, q, self.b.AND(g, f), t + (site,)) for w, q, g, t in self.parts(s)]

    def done(self, f):
        """a condition without the walks that are over when it is met"""
        if isinstance(f, int): return f
        l = []
        for a in self.b.support(f):
            if a[0] != "val" or a[1].op != "discr" or a[1].a[0].op != "iternext": continue
            x = self.b.var(a)
            if not self.b.implies(f, x if a[2] == 1 else self.b.NOT(x)): l.append(a)
        return self.b.exists(f, l) if l else f

    def walks(self, text, sites):
        """how the loops around an addition are walked"""
        tag = ""
        for site in sites:
            f = self.G.at.get(site, 1)
            for a in sorted(self.b.support(f) if not isinstance(f, int) else [], key=str):
                if a[0] != "val" or a[1].op != "discr" or a[1].a[0].op != "iternext": continue
                x = self.b.var(a)
                if not self.b.implies(f, x if a[2] == 1 else self.b.NOT(x)): continue
                if self.listlike(self.source(a[1].a[0].a[0])): continue
                w = self.val(self.source(a[1].a[0].a[0]))
                if "each " + w not in text and "for each " + w not in tag: tag += " for each " + w
            for h in sorted({x for x in self.v.rpo if any(self.v.pos[p] >= self.v.pos[x] for p in self.v.preds[x])}, key=lambda q: self.v.pos[q]):
                cyc = self.cycle(h)
                if site not in cyc: continue
                own = [(k, l) for k, l in self.iters.items() if any(x in cyc for x, _ in l)]
                if self.escapes(cyc, own): tag += " partial"
                for x in sorted(cyc, key=lambda q: self.v.pos[q]):
                    for e in self.v.ev[x]:
                        if e[0] == "call" and e[1].startswith("$iter_"): tag += " %s(%s)" % (e[1][6:], ", ".join(self.val(q) for q in e[2]))
        return tag


    def apart_from(self, f, e):
        """a condition without the test that the walk has an element"""
        l = [a for a in self.b.support(f) if a[0] == "val" and a[1].op == "discr" and a[1].a[0].op == "iternext" and a[1].a[0].a[0] is e.a[0]]
        return self.b.exists(f, l) if l else f

    def about(self, f, e):
        """the part of a condition that is about this element"""
        l = [a for a in self.b.support(f) if not (isinstance(a[1], T) and mentions(a[1], e))]
        return self.b.exists(f, l) if l else f

    listing = ()

    def stages(self, x, out=None):
        """the joins a list goes through"""
        out = set() if out is None else out
        x = self.find(x)
        if x in out: return out
        if x.op == "mut": self.stages(x.a[0], out)
        elif x.op == "phi" and x in self.v.phis:
            out.add(x)
            for o in self.v.phis[x].values(): self.stages(o, out)
        return out

    def roots(self, x):
        """the lists a list is made from by adding and removing"""
        out, seen, st = set(), set(), [x]
        while st:
            x = self.find(st.pop())
            if x in seen: continue
            seen.add(x)
            if x.op == "mut": st.append(x.a[0])
            elif x.op == "phi" and x in self.v.phis: st.extend(self.v.phis[x].values())
            else: out.add(x)
        return out

    def list_text(self, x, b):
        own = self.stages(x)
        if any(own & l for l in self.listing): return "the list so far"
        old, memo, self.listing = self.listing, self.memo, self.listing + (own,)
        self.memo = {}
        try: return self._list_text(x, b)
        finally: self.listing, self.memo = old, memo

    def _list_text(self, x, b):
        out = []
        walks = [] if isinstance(self.care, int) else [a for a in self.b.support(self.care) if a[0] == "val" and a[1].op == "discr" and a[1].a[0].op == "iternext"]
        care = self.b.exists(self.care, walks) if walks else self.care
        for w, q, f, s in self.parts(x):
            if w == "-":
                old, memo = self.names, self.memo
                self.names = dict(self.names, **{}); self.names = {**old, q: "it"}; self.memo = {}
                self.__dict__.pop("_plain", None)
                c = self.tabulate([(f, "yes")], 1) if not isinstance(f, int) else ""
                self.names, self.memo = old, memo
                self.__dict__.pop("_plain", None)
                out.append("without each it if " + c)
                continue
            f, lim = self.bounded(f)
            if w == "all": f = self.if_any(f, q)
            c = self.condition(self.b.AND(f, care), care)
            if c == "never": continue
            if w in ("+", "all"): t = ("" if w == "+" else "all ") + self.val(q, b)
            else: t = w
            if w == "+" and t.startswith("[] + "): t = t[5:]
            self.limits = lim
            t += self.walks(t, s) if w in ("+", "all") else ""
            t += "".join(" take(%s)" % n for _, _, n in lim)
            self.limits = ()
            g = self.b.AND(f, care)
            if out and w in ("+", "all") and isinstance(out[-1], tuple) and out[-1][0] == t and self.G.excl(self.b.AND(out[-1][1], g)) == 0: out[-1] = (t, self.b.OR(out[-1][1], g))
            else: out.append((t, g))
        txt = []
        for o in out:
            if isinstance(o, tuple): c = self.condition(o[1], care); o = o[0] + (" if " + c if c else "")
            txt.append(o)
        return "[" + "; ".join(txt) + "]"

    def if_any(self, f, q):
        """adding nothing changes nothing: it does not matter whether that is tested"""
        if isinstance(f, int): return f
        own = self.roots(q)
        for at in self.b.support(f):
            if at[0] == "val" and at[1].op == "len" and at[2] == 0 and self.roots(at[1].a[0]) == own: f = self.b.restrict(f, {at: False})
        return f

    limits = ()                        # (test, outcome, bound) of the length that the list made has to be below

    def bounded(self, f):
        """a condition without the tests that the list made here is not too long"""
        if isinstance(f, int): return f, ()
        own, out = self.listing[-1], []
        for at in list(self.b.support(f)):
            t = at[1] if isinstance(at[1], T) else None
            if t is None or t.op != "bin" or t.a[0] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"): continue
            k = [i for i in (1, 2) if t.a[i].op == "len" and self.stages(t.a[i].a[0]) & own]
            if len(k) != 1: continue
            x = self.b.var(at)
            yes = True if self.b.implies(f, x) else False if self.b.implies(f, self.b.NOT(x)) else None
            if yes is None: continue
            holds = yes if len(at) == 2 or at[2] == 1 else not yes
            o = t.a[0] if k[0] == 1 else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(t.a[0], t.a[0])
            if (o, holds) not in (("Lt", True), ("Ge", False), ("Eq", False), ("Ne", True)): continue
            f = self.b.exists(f, [at])
            out.append((at, yes, self.val(t.a[3 - k[0]])))
        return f, tuple(out)

    # ---------- joins ----------
    def back(self, x):
        """for a value that grows around a loop: (initial operands, per back edge operand)"""
        pb = x.a[0]
        ops = self.v.phis.get(x, {})
        init = {p: o for p, o in ops.items() if self.v.pos[p] < self.v.pos[pb]}
        rec = {p: o for p, o in ops.items() if p not in init}
        return init, rec

    def join(self, x):
        if x not in self.v.phis: return show(x)
        init, rec = self.back(x)
        if rec:
            if x in self.rolling: return "…"
            old, self.rolling = self.rolling, self.rolling | {x}
            try: return self.loop(x, init, rec)
            finally: self.rolling = old
        return self.table([(1, x)])

    rolling = frozenset()              # the carried values being written down: met again, they are "…"

    def loop(self, x, init, rec):
        head = x.a[0]
        C = self.cycle(head)
        own = [(k, l) for k, l in self.iters.items() if any(b in C for b, _ in l) and min(self.v.pos[b] for b, _ in l) >= self.v.pos[head]]
        if len(own) == 1 and self.counts(x, init, rec, C, own[0]): return "index in " + self.val(own[0][0][0])
        l = self.looped(x)
        if l is not None and l[1]: return "%s{%s}" % (self.val(l[0]), ", ".join("%s:=%s" % (".".join(p), self.val(q)) for p, q in sorted(l[1], key=lambda z: z[0])))
        if len(own) == 1:
            s = self.find(own[0][0][0])
            if s.op == "phi" and s in self.v.phis and not self.back(s)[1] and s not in self.over:
                # one of several collections is walked
                rows = []; old = self.memo
                for p, o in self.v.phis[s].items():
                    o = self.find(o)
                    self.over[s] = o; self.memo = {}
                    if o.op in ("newcoll", "default"): w = "+".join(sorted({self.val(q, r) for r, q in init.items()}))
                    else: w = self.loop_text(x, init, rec, C, own)
                    rows.append((self.G.phi_edge(p, s.a[0]), w))
                del self.over[s]; self.memo = old
                return self.tabulate(rows)
        return self.loop_text(x, init, rec, C, own)

    def counts(self, x, init, rec, C, walk):
        """a number that is the position in a walk: nought at first, one more every round, and not looked at after the walk"""
        def one_more(o, d=0):
            o = self.find(o)
            if o.op == "phi" and o is not x and o in self.v.phis and d < 8: return all(one_more(q, d + 1) for q in self.v.phis[o].values())
            return o.op == "bin" and o.a[0] == "Add" and o.a[1] is x and is_const(o.a[2]) and o.a[2].a[0] == 1
        if len(walk[1]) != 1 or not all(is_const(o) and o.a[0] == 0 and type(o.a[0]) is int for o in map(self.find, init.values())) or not all(map(one_more, rec.values())): return False
        nb = walk[1][0][0]
        # every round takes the next one: the loop is left open without it
        head = x.a[0]; seen, st = set(), [head]
        if head != nb:
            while st:
                q = st.pop()
                if q in seen or q == nb: continue
                seen.add(q); st += [s for s in fsuccs(self.v.fl.bbs[q]["t"]) if s in C]
            if any(p in seen for p in rec): return False
        for q in self.v.rpo:
            if q in C: continue
            for e in self.v.ev[q]:
                for t in e[1:]:
                    for w in (t if isinstance(t, tuple) else (t,)):
                        if isinstance(w, T) and x in subterms_cached(w): return False
        return not any(x in subterms_cached(o) for y, ops in self.v.phis.items() if y.a[0] not in C for o in ops.values())

    def loop_text(self, x, init, rec, C, own):
        pushes = []; self.grown = set()
        for p, o in rec.items(): self.grow(o, p, x, C, pushes, 1, self.G.phi_edge(p, x.a[0]))
        i0 = {"[]" if self.empty(self.find(o)) else self.val(o, p) for p, o in init.items()}
        tag = ""
        if any(len(l) > 1 for k, l in own): tag += " stepped"
        if self.escapes(C, own): tag += " partial"
        for b in sorted(C, key=lambda q: self.v.pos[q]):
            for e in self.v.ev[b]:
                if e[0] == "call" and e[1].startswith("$iter_"): tag += " %s(%s)" % (e[1][6:], ", ".join(self.val(q) for q in e[2]))
        if len(own) == 1 and not any("each " in w for w in pushes): pushes = [w + " for each " + self.val(own[0][0][0]) for w in pushes]
        body = "; ".join(sorted(set(pushes)))
        return "%s%s%s" % ("+".join(sorted(i0)), " +" + tag + " " if tag else " + ", body)

    def header(self, b, C, head): return b in C

    def cycle(self, head):
        body = {head}
        st = [p for p in self.v.preds[head] if self.v.pos[p] >= self.v.pos[head]]
        while st:
            y = st.pop()
            if y in body: continue
            body.add(y); st.extend(self.v.preds[y])
        return body

    def escapes(self, C, own):
        """the loop can be left other than by exhausting its source or by failing"""
        nexts = {e[3] for k, l in own for b, e in l}
        for b in C:
            t = self.v.fl.bbs[b]["t"]
            if t[0] == "nd" and any(self.takes(s, C) for s in t[1]): continue
            for s in self.S[b]:
                if s in C: continue
                f = self.G.excl(self.b.AND(self.G.at[b], self.G.edge(b, s)))
                for n in nexts: f = self.b.restrict(f, {("val", mk("discr", n), 0): False, ("val", mk("discr", n), 1): True})
                for at, yes, _ in self.limits: f = self.b.restrict(f, {at: yes})
                # only failing conversions
                if not nexts: f = self.assume_ok(f)
                if not (isinstance(f, int) and f == 0) and self.returns_ok(s): return True
        return False

    def takes(self, s, C):
        """the walk goes on here if it has not yet been long enough"""
        for _ in range(4):
            if s not in C: return False
            if any(e[0] == "call" and e[1] == "$iter_take" for e in self.v.ev[s]): return True
            if len(self.S[s]) != 1: return False
            s = self.S[s][0]
        return False

    def returns_ok(self, s):
        seen, st = {s}, [s]
        while st:
            y = st.pop()
            for e in self.v.ev[y]:
                if e[0] == "return" and not (e[1].op == "agg" and e[1].a[2] == "Err"): return True
            for z in self.S[y]:
                if z not in seen: seen.add(z); st.append(z)
        return False

    def grow(self, o, b, x, C, out, cond, edge=1, head=None):
        """the additions made to x on the way to operand o"""
        head = x.a[0] if head is None else head
        o = self.find(o)
        if o is x: return
        if o.op == "mut":
            self.grow(o.a[0], b, x, C, out, cond, edge, head)
            n = short(o.a[1])
            site = o.a[3] if len(o.a) > 3 else None
            f = self.G.at.get(site, 1) if site is not None else 1
            # conditions met before the loop are the same for every element
            c = self.condition(self.b.AND(f, cond), self.G.at[head])
            w = ", ".join(self.val(q, b) for q in o.a[2])
            if self.counted(o) is not None: out.append("one more of " + w + (" if " + c if c else "")); return
            if n.endswith(("push", "push_str", "push_back")) : out.append(w + (" if " + c if c else ""))
            elif n.endswith(("extend", "append", "extend_from_slice")): out.append("all " + w + (" if " + c if c else ""))
            else: out.append("%s(%s)" % (n, w) + (" if " + c if c else ""))
            return
        if o.op == "phi" and o in self.v.phis:
            if (x, o) in self.grown: return
            self.grown.add((x, o))
            init, rec = self.back(o)
            if rec: self.grow_inner(o, init, rec, x, C, out, cond, head)
            else:
                for p, q in self.v.phis[o].items(): self.grow(q, p, x, C, out, cond, self.G.phi_edge(p, o.a[0]), head)
            return
        y = self.counted_if(o)
        if y is not None: edge, o = self.b.AND(edge, self.G.formula(y, 1)), bin_("Add", next(q for q in o.a[1:] if self.plainly(q) is not y), const(1))
        c = self.condition(self.apart_from_walks(self.b.AND(edge, cond)), self.G.at[head])
        if c != "never": out.append("becomes " + self.val(o, b) + (" if " + c if c else ""))

    def plainly(self, x):
        x = self.find(x)
        while x.op == "cast" or x.op == "call" and len(x.a[1]) == 1 and CONV.match(x.a[0]): x = self.find(x.a[0] if x.op == "cast" else x.a[1][0])
        return x

    def counted_if(self, o):
        """what one more is counted for, where what is true is added up"""
        if o.op != "bin" or o.a[0] != "Add": return None
        for q in o.a[1:]:
            y = self.plainly(q)
            if y.op == "un" and y.a[0] == "Not" or y.op == "bin" and y.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return y
        return None

    def apart_from_walks(self, f):
        """a condition without the tests whether a walk has an element"""
        if isinstance(f, int): return f
        l = [a for a in self.b.support(f) if a[0] == "val" and a[1].op == "discr" and a[1].a[0].op == "iternext"]
        return self.b.exists(f, l) if l else f

    def grow_inner(self, o, init, rec, x, C, out, cond, head):
        inner = self.cycle(o.a[0])
        own = [(k, l) for k, l in self.iters.items() if any(q in inner and self.v.pos[q] >= self.v.pos[o.a[0]] for q, _ in l)]
        if own and self.escapes(inner, own): out.append("partial")
        for p, q in init.items(): self.grow(q, p, x, C, out, cond, self.G.phi_edge(p, o.a[0]), head)
        for p, q in rec.items(): self.grow(q, p, o, C, out, cond, self.G.phi_edge(p, o.a[0]), head)

    # ---------- conditions ----------
    deep = False                       # alternatives of a joined value are told by where they come from
    facts = {}                         # alternative that a named value is known to be

    def resolve(self, f):
        """tests on a joined value in terms of the tests that decide which value it is"""
        for _ in range(20):
            sub = None
            for at in self.b.support(f):
                if at[0] == "val" and at[1].op == "discr":
                    g = self.chosen(self.find(at[1].a[0]), at[2])
                    if g is not None: sub = (at, g); break
            if sub is None: return f
            at, g = sub
            f = self.b.ite(g, self.b.restrict(f, {at: True}), self.b.restrict(f, {at: False}))
        return f

    def chosen(self, x, i, d=0):
        """when the value is the alternative i; None if it is not known which it is"""
        m = self.__dict__.setdefault("_chosen", {})
        if (x, i) in m: return m[(x, i)]
        m[(x, i)] = None
        if x.op != "phi" or x not in self.v.phis or d > 6: return None
        init, rec = self.back(x)
        if rec: return None
        g = 0
        for p, o in self.v.phis[x].items():
            o = self.find(o)
            if o.op == "agg" and o.a[2] in ("None", "Some", "Ok", "Err"): h = 1 if {"None": 0, "Some": 1, "Ok": 0, "Err": 1}[o.a[2]] == i else 0
            else:
                h = self.chosen(o, i, d + 1)
                if h is None: return None
            g = self.b.OR(g, self.b.AND(self.G.phi_edge(p, x.a[0]), h))
        m[(x, i)] = g
        return g

    def plain(self, x):
        m = self.__dict__.setdefault("_plain", {})
        if x not in m:
            old = self.facts, self.memo, self.care
            self.facts, self.memo, self.care = {}, {}, 1
            m[x] = self.val(x)
            self.facts, self.memo, self.care = old
        return m[x]

    def known(self, f):
        m = {}
        for at in self.b.support(f):
            if at[0] == "val" and at[1].op == "discr":
                k = self.facts.get(self.plain(at[1].a[0]))
                if k is not None: m[at] = at[2] == k
        return self.b.restrict(f, m) if m else f

    def assume_ok(self, f):
        """success: fallible steps succeeded"""
        if self.deep: f = self.resolve(f)
        if self.facts: f = self.known(f)
        m = {}
        for at in self.b.support(f):
            if at[0] != "val": continue
            t = at[1]
            if t.op == "discr":
                y = t.a[0]
                if self.result(y): m[at] = at[2] == 0
        return self.b.restrict(f, m) if m else f

    def result(self, y):
        """a Result or ControlFlow, judged by what else is done with it"""
        if y.op != "call": return False
        if self.fallible(y): return True
        return any(q.op == "var" and q.a[0] is y and q.a[1] in ("Ok", "Err") for q in self.vars())

    def vars(self):
        if not hasattr(self, "_vars"):
            self._vars = {q for b in self.v.rpo for e in self.v.ev[b] for x in e[1:] if isinstance(x, T) for q in subterms_cached(x) if q.op == "var"}
            self._vars |= {q for ops in self.v.phis.values() for x in ops.values() for q in subterms_cached(x) if q.op == "var"}
        return self._vars

    def named(self, at):
        """(key, index) of an atom over source alternatives, or (key, None) for a condition"""
        if at[0] == "val":
            t = at[1]
            if t.op == "discr":
                y = self.find(self.unchanged(self.find(t.a[0]), True))
                return ("alt", self.val(y), y), at[2]
            return ("num", self.val(t), t), at[2]
        return ("cond", self.val(at[1]), None), None

    def condition(self, f, care=1):
        f = self.assume_ok(self.calm(self.G.excl(f)))
        f = self.calm(self.walked(f))
        if isinstance(f, int): return "" if f else "never"
        t = self.tabulate([(f, "yes")], care)
        return "" if t == "yes" else t

    def calm(self, f):
        """a condition without the tests whose other outcome ends the program"""
        if isinstance(f, int): return f
        p = self.__dict__.get("_panics")
        if p is None:
            p = 0
            for x in self.v.rpo:
                if any(e[0] == "panic" and re.match(r"core::(option::Option|result::Result)::", str(e[1])) for e in self.v.ev[x]): p = self.b.OR(p, self.G.at[x])
            self._panics = p = self.G.excl(p)
        if isinstance(p, int): return f
        c = self.b.NOT(p)
        own = set(self.b.support(p))
        for a in [a for a in self.b.support(f) if a in own]:
            g = self.b.exists(self.b.AND(f, c), [a])
            if g != f and self.b.AND(g, c) == self.b.AND(f, c): f = g
            if isinstance(f, int): break
        return f

    given = None                       # what is known anyway
    names = {}
    alias = {}                         # names for values that many others are made of
    sharp = False                      # values are given under the conditions of their row

    def text_at(self, x, b, cond):
        if not self.sharp: return self.val(x, b)
        care, memo = self.care, self.memo
        self.care, self.memo = cond, {}
        t = self.val(x, b)
        self.care, self.memo = care, memo
        return t

    def lowered(self, x):
        """a number lowered by one unless it is zero"""
        return x.op == "call" and re.search(r"num::(<impl \w+>::)?saturating_sub$", x.a[0]) and len(x.a[1]) == 2 and is_const(x.a[1][1]) and x.a[1][1].a[0] == 1 and (self.ty(x.a[1][0]) or "").startswith("u")

    def rows(self, b, x, cond, path, out):
        """fields of the result with their conditions"""
        x = self.find(x)
        if self.lists and x.op in ("phi", "mut") and self.listlike(x): return out.append((path, cond, self.text_at(x, b, cond)))
        if x.op == "phi" and x in self.v.phis:
            init, rec = self.back(x)
            if not rec:
                for p, o in self.v.phis[x].items(): self.rows(p, o, self.b.AND(cond, self.G.phi_edge(p, x.a[0])), path, out)
                return
        if x.op == "agg":
            n = x.a[2]
            if n in ("Ok", "Continue") and len(x.a[4]) == 1: return self.rows(b, x.a[4][0], cond, path, out)
            if n in ("Err", "Break"): return
            if n == "Some" and self.lowered(x.a[4][0]):
                inner = []
                self.rows(b, x.a[4][0], cond, "", inner)
                out += [(path, c, "Some(%s)" % t) for _, c, t in inner]
                return
            if n == "None" or n == "Some" or x.a[0].startswith("core::"):
                out.append((path, cond, self.text_at(x, b, cond))); return
            a = self.adt(x.a[0])
            if a and len(a["variants"]) > 1:
                if not x.a[4]: out.append((path, cond, n)); return
                path = path + "::" + n
            for f, q in zip(x.a[3], x.a[4]): self.rows(b, q, cond, (path + "." if path else "") + f, out)
            if not x.a[4]: out.append((path, cond, x.a[0].split("::")[-1]))
            return
        if self.narrow and x.op in ("bin", "un") and isbool(x):
            # a truth value that itself depends on alternatives
            f = self.G.boolean(x)
            if isinstance(f, int) or len(self.b.support(f)) > 1 or next(iter(self.b.support(f)))[0] == "val":
                out.append((path, self.G.excl(self.b.AND(cond, f)), "1"))
                out.append((path, self.G.excl(self.b.AND(cond, self.b.NOT(f))), "0"))
                return
        if self.lowered(x):
            # zero stays zero
            y = x.a[1][0]; z = self.G.formula(y, 0)
            out.append((path, self.b.AND(cond, z), "0"))
            out.append((path, self.G.excl(self.b.AND(cond, self.b.NOT(z))), self.text_at(bin_("Sub", y, const(1)), b, cond)))
            return
        if x.op == "fld" and x.a[1] == "0" and x.a[0].op == "var" and x.a[0].a[1] == "Err": return
        if x.op == "call" and len(x.a[1]) == 1 and isinstance(x.a[1][0], T) and x.a[0].endswith(("::clone", "::to_owned", "$clone")): return self.rows(b, x.a[1][0], cond, path, out)
        if x.op == "upd":
            # a record with some fields replaced
            y, new = x, {}
            while y.op == "upd": new.setdefault(y.a[1], y.a[2]); y = self.find(y.a[0])
            t = self.strip(self.ty(y)); a = self.adt(t) if t else None
            if a and len(a["variants"]) == 1 and not any("." in n for n in new):
                w = self.val(y, b)
                for f in a["variants"][0]["fields"]:
                    p = (path + "." if path else "") + f[0]
                    if f[0] in new: self.rows(b, new[f[0]], cond, p, out)
                    else: out.append((p, cond, w + "." + f[0]))
                return
        if self.spread:
            # a record of plain numbers is its fields
            a = self.adt(self.strip(self.ty(x) or ""))
            if a and len(a["variants"]) == 1 and not a.get("enum") and all(f[1] in INTS or f[1] in ("f32", "f64", "bool") for f in a["variants"][0]["fields"]) and a["variants"][0]["fields"]:
                for f in a["variants"][0]["fields"]: out.append(((path + "." if path else "") + f[0], cond, self.text_at(fld(x, f[0]), b, cond)))
                return
        y = self.into(x) if self.G.split else None
        if y is not None:
            for p, o in self.v.phis[y].items(): self.rows(b, subst(x, {y: o}), self.b.AND(cond, self.G.phi_edge(p, y.a[0])), path, out)
            return
        out.append((path, cond, self.text_at(x, b, cond)))

    def into(self, x):
        """a value that depends on the way taken, of which one alternative is looked into"""
        for t in subterms_cached(x):
            if t.op == "var":
                y = self.find(t.a[0])
                if y.op == "phi" and y is t.a[0] and y in self.v.phis and not self.back(y)[1] and len(self.v.phis[y]) <= 16: return y
        return None

    spread = False                     # records of numbers are given by their fields

    def opt(self, b, x): return self.val(x, b)

    def table(self, items):
        out = []
        for c, x in items: self.rows(None, x, c, "", out)
        by = {}
        for p, c, w in out: by.setdefault(p, []).append((c, w))
        # the same whichever way it is reached
        if set(by) == {""} and len({w for _, w in by[""]}) == 1: return by[""][0][1]
        if set(by) == {""}: return self.tabulate(by[""])
        return "{" + ", ".join("%s: %s" % (p, self.tabulate(r)) for p, r in sorted(by.items())) + "}"

    def tabulate(self, rows, care=1):
        """value by alternatives of the source"""
        rs = []
        for c, w in rows:
            f = self.assume_ok(self.G.excl(c))
            f = self.walked(f)
            if self.given is not None: f = self.b.AND(f, self.given)
            if isinstance(f, int) and f == 0: continue
            rs.append((f, w))
        if isinstance(care, int) and care == 1: care = self.care
        if self.given is not None: care = self.b.AND(care, self.given)
        if not isinstance(care, int): care = self.assume_ok(self.G.excl(care))
        ws = {w for _, w in rs}
        if not rs: return "never"
        sup = set()
        for f, _ in rs: sup |= self.b.support(f)
        keys = {}
        for a in sup:
            k, i = self.named(a)
            keys.setdefault(k[:2], {"term": k[2], "vals": set(), "atoms": []})
            if i is not None: keys[k[:2]]["vals"].add(i)
            keys[k[:2]]["atoms"].append((a, i))
        if len(ws) == 1 and not keys: return rs[0][1]
        self.one_of_many(keys)
        names = sorted(keys)
        doms = []
        for k in names:
            d = keys[k]
            if k[0] == "text": doms.append([(t, t) for t in sorted(d["vals"])] + [("other", None)]); continue
            if k[0] == "cond": doms.append([("no", None), ("yes", None)]); continue
            vs = self.variants(d["term"]) if k[0] == "alt" else None
            if vs is not None: doms.append([(n, i) for i, n in enumerate(vs)])
            else:
                two = k[0] == "alt" and d["vals"] <= {0, 1} and self.optional(d["term"])
                doms.append([("None", 0), ("Some", 1)] if two else [(str(i), i) for i in sorted(d["vals"])] + [("other", None)])
        total = 1
        for d in doms: total *= len(d)
        if total > 20000: return "too many alternatives: " + ", ".join(k[1] for k in names)
        res = {}
        # a condition on the payload of an alternative means nothing under another alternative
        needs = []
        for i, k in enumerate(names):
            for j, q in enumerate(names):
                if i == j: continue
                for w in {n for n, _ in doms[i]}:
                    if k[0] == "alt" and (w == "Some" and k[1] + "?" in q[1] or k[1] + "@" + w + "." in q[1] + "."):
                        needs.append((i, w, j))
        # a value is not two different texts
        same = [re.match(r"\((?:('[^']*') Eq (.*)|(.*) Eq ('[^']*'))\)$", k[1]) if k[0] == "cond" else None for k in names]
        same = [m and (m.group(1) or m.group(4), m.group(2) or m.group(3)) for m in same]
        apart = [(i, j) for i in range(len(names)) for j in range(i) if same[i] and same[j] and same[i][1] == same[j][1] and same[i][0] != same[j][0]]
        for combo in itertools.product(*doms):
            m = {}
            ns = [n for n, _ in combo]
            if any(ns[i] != w and ns[j] != doms[j][0][0] for i, w, j in needs): continue
            if any(ns[i] == ns[j] == "yes" for i, j in apart): continue
            for k, (n, i) in zip(names, combo):
                for a, ai in keys[k]["atoms"]:
                    m[a] = (n == "yes") if k[0] == "cond" else (i is not None and ai == i)
            got = []
            c = self.b.restrict(care, m)
            if isinstance(c, int) and c == 0: continue
            for f, w in rs:
                r = self.b.restrict(f, m)
                if isinstance(r, int) and r == 1: got.append(w)
                elif not isinstance(r, int): got.append("maybe " + w)
            got = "|".join(sorted(set(got))) or "-"
            res[tuple(n for n, _ in combo)] = got
        for i in sorted({k for p in apart for k in p}, reverse=True):
            rest = {}
            for k, w in res.items(): rest.setdefault(k[:i] + k[i + 1:], set()).add(w)
            if all(len(w) == 1 for w in rest.values()): names, doms, res = names[:i] + names[i + 1:], doms[:i] + doms[i + 1:], {k: min(w) for k, w in rest.items()}
        return self.compress(names, doms, res)

    def one_of_many(self, keys):
        """comparisons of one value with many texts are one choice between these texts"""
        by = {}
        for k in keys:
            m = re.match(r"\((?:('[^']*') Eq (.*)|(.*) Eq ('[^']*'))\)$", k[1]) if k[0] == "cond" else None
            if m: by.setdefault(m.group(2) or m.group(3), []).append((k, m.group(1) or m.group(4)))
        for t, l in by.items():
            if len(l) < 12: continue
            keys["text", t] = {"term": None, "vals": {s for _, s in l}, "atoms": [(a, s) for k, s in l for a, _ in keys[k]["atoms"]]}
            for k, _ in l: del keys[k]

    def optional(self, x):
        if x.op == "phi" and any(o.op == "agg" and o.a[2] in ("None", "Some") for o in map(self.find, self.v.phis.get(x, {}).values())): return True
        return x in self.v.__dict__.get("options", ()) or any(q.op == "var" and q.a[0] is x and q.a[1] == "Some" for q in self.vars()) or x.op == "lookup"

    def compress(self, names, doms, res):
        """decision table over the alternatives, in the order of their names; alternatives that make no difference are left out"""
        if not res: return "never"
        ws = set(res.values())
        if len(ws) == 1: return ws.pop()
        if not names: return "|".join(sorted(ws))
        sub = {}
        for k, w in res.items(): sub.setdefault(k[0], {})[k[1:]] = w
        txt = {n: self.compress(names[1:], doms[1:], r) for n, r in sub.items()}
        if len(set(txt.values())) == 1: return next(iter(txt.values()))
        S = names[0][1]
        if set(n for n, _ in doms[0]) == {"None", "Some"}:
            n, s = txt.get("None"), txt.get("Some")
            if n == "None" and s == "Some(%s?)" % S: return S
            if n == "None" and s is not None and s.startswith("Some(") and not s.endswith(S): return "opt " + s[5:-1]
        by = {}
        for n, w in sorted(txt.items()): by.setdefault(w, []).append(n)
        return self.choice("{" + "; ".join("%s -> %s" % (" or ".join(ks), w) for w, ks in sorted(by.items(), key=lambda q: q[1])) + "} by " + S, txt, S)

    def choice(self, t, by, S):
        """the smaller or larger of two values, and what is true where something else is"""
        if set(by.values()) == {"0", "1"}:
            if set(by) == {"no", "yes"}: return S if by["yes"] == "1" else "Not(%s)" % S
            if set(by) == {"0", "other"}: return ("(%s Eq %s)" if by["0"] == "1" else "Not((%s Eq %s))") % tuple(sorted(("0", S)))
        if set(by) == {"0", "other"} and by["0"].isdigit() and by["other"] in ("(-%s + %s)" % (S, by["0"]), "(%s + %s)" % (S, by["0"]), S if by["0"] == "0" else "-"): return by["other"]
        if set(by) == {"no", "yes"} and S.endswith(")"):
            for m in re.finditer(" Lt ", S):
                l, r = S[1:m.start()], S[m.end():-1]
                if l.count("(") != l.count(")") or not l or not r: continue
                y, n = by["yes"], by["no"]
                if re.match(r"-?\d+$", r):
                    if y == l and n in (r, str(int(r) - 1)): return "min(%s)" % ", ".join(sorted((y, n)))
                    if n == l and y in (r, str(int(r) - 1)): return "max(%s)" % ", ".join(sorted((y, n)))
                if (y, n) == (l, r): return "min(%s)" % ", ".join(sorted((l, r)))
                if (y, n) == (r, l): return "max(%s)" % ", ".join(sorted((l, r)))
        return t

    # ---------- the function ----------
    def result_table(self):
        out = []
        for b in self.v.rpo:
            for e in self.v.ev[b]:
                if e[0] == "return": self.rows(b, e[1], self.G.at[b], "", out)
        n = self.parted()
        by = {}
        for p, c, w in out:
            # handed on as a whole: each of its parts is
            for q, x in [(p, w)] if p or not n else [(str(i), "%s.%d" % (w, i)) for i in range(n)]: by.setdefault(q, []).append((c, x))
        return {p: self.tabulate(r) for p, r in by.items()}

    def parted(self):
        """the number of parts of what is returned, if it has several"""
        t = self.fl.locals[0]
        if t.startswith("core::result::Result<") or t.startswith("Result<"): t = split_args(t[t.index("<") + 1:-1])[0]
        if not (t.startswith("(") and t.endswith(")")): return 0
        n = len([q for q in split_args(t[1:-1]) if q.strip()])
        return n if n > 1 else 0


    def taken_apart(self, t):
        """a record nobody sees as a whole: it only lends its fields to another one of its kind"""
        lent = False
        for b in self.v.rpo:
            for e in self.v.ev[b]:
                for x in e[1:]:
                    for w in (x if isinstance(x, tuple) else (x,)):
                        if not isinstance(w, T): continue
                        if w is t and e[0] == "agg": continue
                        if t in subterms_cached(w): return False
                        if e[0] == "agg" and w.op == "agg" and w.a[0] == t.a[0] and len(w.a[4]) == len(t.a[4]) and sum(p is q and not is_const(p) for p, q in zip(w.a[4], t.a[4])) * 2 > len(t.a[4]): lent = True
        return lent and not any(t in subterms_cached(o) for ops in self.v.phis.values() for o in ops.values())

    def built(self, want):
        """what each field holds wherever an aggregate of the wanted type is built, under the conditions of that place"""
        out = []
        for b in self.v.rpo:
            for e in self.v.ev[b]:
                if e[0] != "agg": continue
                t = next((x for x in e[1:] if isinstance(x, T) and x.op == "agg"), None)
                if t is None or not want(t.a[0]) or self.taken_apart(t): continue
                self.memo = {}; self.care = self.G.at[b]; op, self.opaque = self.opaque, None
                tab = {}
                for n, q in zip(t.a[3], t.a[4]):
                    rows = []; self.rows(b, q, self.care, "", rows)
                    by = {}
                    for p, c, w in rows: by.setdefault(p, []).append((c, w))
                    for p, r in by.items(): tab[n + ("." + p if p else "")] = self.tabulate(r, self.care)
                self.memo = {}; self.care = 1; self.opaque = op
                out.append((b, t, tab))
        return out


def conversions(F):
    """pretty names of the conversion functions of the crate, by (from, to)"""
    return F.from_impls


def canon_job(F, names, sid):
    from rules_decode import unary
    fl, v = unary(F, [], sid)
    c = Canon(F, fl, v)
    return c.result_table(), list(getattr(fl, "inlined", []) or [])
