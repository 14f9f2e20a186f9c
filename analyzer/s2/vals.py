"""Forward value analysis of a flattened function (global value numbering with phis).

A value is an interned term.  References are transparent: a reference to a place is the place's term;
only a mutable borrow of a local that is tracked flow-sensitively is a pointer term.  Stores into
memory reached from parameters are remembered per place and invalidated on possible aliases."""
import re
from flat import fsuccs, OPT, RES, CF
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id", "_m")

    def __repr__(self): return show(self)


class Pool:
    def __init__(self): self.tab = {}; self.n = 0

    def mk(self, op, *a):
        k = (op,) + tuple(x.id if isinstance(x, T) else x for x in _flat(a))
        t = self.tab.get(k)
        if t is None:
            t = T(); t.op = op; t.a = a; t.id = ("t", self.n); t._m = None
            self.n += 1
            self.tab[k] = t
        return t


def _flat(a):
    for x in a:
        if isinstance(x, tuple):
            yield "("
            yield from _flat(x)
            yield ")"
        else: yield x


POOL = Pool()
mk = POOL.mk


def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x); st.extend(x.a)
    return seen


def mentions(t, s):
    return s in subterms_cached(t)


_SC = {}


def subterms_cached(t):
    r = _SC.get(t)
    if r is None:
        r = _SC[t] = frozenset(subterms(t))
    return r


UNROLLED = 1000                    # a round of a loop over an array that is written out


def const(v, ty=""): return mk("const", v, "float" if isinstance(v, float) else _cty(ty))


def _cty(t): return "str" if "str" in t else ""


def is_const(t): return isinstance(t, T) and t.op == "const"


def show(t, d=0):
    if isinstance(t, tuple): return "(" + ", ".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T): return str(t)
    if d > 14: return "…"
    o, a = t.op, t.a
    if o == "const": return repr(a[0]) if not isinstance(a[0], str) or a[1] == "str" else str(a[0])
    if o == "param": return a[1] or "arg%d" % a[0]
    if o == "fld": return "%s.%s" % (show(a[0], d + 1), a[1])
    if o == "var": return "%s@%s" % (show(a[0], d + 1), a[1])
    if o == "agg": return "%s%s{%s}" % (a[0].split("::")[-1], ("::" + a[2]) if a[2] and a[2] != a[0].split("::")[-1] else "", ", ".join(("%s: " % n if n and not n.isdigit() else "") + show(x, d + 1) for n, x in zip(a[3], a[4])))
    if o == "closure": return "closure"
    if o == "call": return "%s(%s)" % (short(a[0]), ", ".join(show(x, d + 1) for x in a[1]))
    if o == "mut": return "%s!%s(%s)" % (show(a[0], d + 1), short(a[1]), ", ".join(show(x, d + 1) for x in a[2]))
    if o == "bin": return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == "un": return "%s(%s)" % (a[0], show(a[1], d + 1))
    if o == "cast": return "(%s as %s)" % (show(a[0], d + 1), a[1])
    if o == "discr": return "discr(%s)" % show(a[0], d + 1)
    if o == "phi": return "phi%s" % (a[0],)
    if o == "elem": return "elem(%s)" % show(a[0], d + 1)
    if o == "at": return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "lookup": return "%s.get(%s)" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "upd": return "%s{%s:=%s}" % (show(a[0], d + 1), a[1], show(a[2], d + 1))
    if o == "ptr": return "&mut _%s%s" % (a[0], a[1] or "")
    if o == "fn": return "fn " + short(a[0])
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))


def short(n):
    n = re.sub(r"::<[^<>]*(<[^<>]*>)?[^<>]*>", "", n)
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", n)
    if m: return re.split(r"[<]", m.group(1))[0].split("::")[-1] + "::" + m.group(3)
    return "::".join(n.split("::")[-2:])


# ---------- constructors with simplification ----------
def fld(t, f):
    o = t.op
    if o == "agg" or o == "closure":
        names, ops = t.a[3], t.a[4]
        if f in names: return ops[names.index(f)]
    elif o == "upd":
        if t.a[1] == f: return t.a[2]
        return fld(t.a[0], f)
    elif o == "var" and f == "0" and t.a[1] == "Some":
        x = t.a[0]
        if x.op == "iternext": return mk("elem", x.a[0], x.a[1])
        if x.op == "lookup": return at_(x.a[0], x.a[1])
    return mk("fld", t, f)


def var(t, v):
    o = t.op
    if o == "agg":
        if t.a[2] == v: return t
    elif o == "upd" and t.a[1] == ("v", v): return t.a[2]
    elif o == "mut" and False: pass
    return mk("var", t, v)


def upd(t, path, v):
    if not path: return v
    k = path[0]
    if isinstance(k, tuple):
        old = var(t, k[1])
        return mk("upd", t, k, upd(old, path[1:], v)) if t.op != "agg" else upd(t, path[1:], v)
    old = fld(t, k)
    nv = upd(old, path[1:], v)
    if t.op == "agg" and k in t.a[3]:
        i = t.a[3].index(k)
        ops = t.a[4][:i] + (nv,) + t.a[4][i + 1:]
        return mk("agg", t.a[0], t.a[1], t.a[2], t.a[3], ops)
    if t.op == "upd":
        if t.a[1] == k: return upd(t.a[0], path, v) if len(path) == 1 else mk("upd", t.a[0], k, nv)
        if isinstance(t.a[1], str):
            # keep overridden fields in one canonical order
            if k < t.a[1]: return mk("upd", upd(t.a[0], (k,), nv), t.a[1], t.a[2])
    return mk("upd", t, k, nv)


def rd(t, path):
    for k in path: t = var(t, k[1]) if isinstance(k, tuple) else fld(t, k)
    return t


CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b,
       "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}
ARI = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "BitAnd": lambda a, b: a & b,
       "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b, "Shl": lambda a, b: a << b if 0 <= b < 128 else 0, "Shr": lambda a, b: a >> b}
COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne"}


def okey(t): return show(t)


def subst(t, m):
    """replace leaf terms and rebuild with simplification"""
    memo = {}
    def go(x):
        if x in m: return m[x]
        r = memo.get(x)
        if r is not None: return r
        o, a = x.op, x.a
        if o == "fld": r = fld(go(a[0]), a[1])
        elif o == "var": r = var(go(a[0]), a[1])
        elif o == "discr": r = discr_(go(a[0]))
        elif o == "bin": r = bin_(a[0], go(a[1]), go(a[2])) if a[0] not in ("min", "max") else mk("bin", a[0], go(a[1]), go(a[2]))
        elif o == "un": r = un_(a[0], go(a[1]))
        elif o in ("agg", "closure"): r = mk(o, a[0], a[1], a[2], a[3], tuple(go(y) for y in a[4]))
        elif o == "upd": r = upd(go(a[0]), (a[1],), go(a[2]))
        elif o == "cast": r = cast_(go(a[0]), a[2], a[1], "IntToInt")
        elif o == "at": r = at_(go(a[0]), go(a[1]))
        elif o in ("phi", "const", "param", "ptr", "fn"): r = x
        else: r = mk(o, *(tuple(go(z) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else go(y) if isinstance(y, T) else y for y in a))
        memo[x] = r
        return r
    return go(t)


SHL = {}                               # values moved up within fewer bits than 64, and the type that limits them


def bin_(op, a, b):
    op = {"AddUnchecked": "Add", "SubUnchecked": "Sub", "MulUnchecked": "Mul", "ShlUnchecked": "Shl", "ShrUnchecked": "Shr"}.get(op, op)
    if is_const(a) and is_const(b) and isinstance(a.a[0], int) and isinstance(b.a[0], int):
        if op in CMP: return const(int(CMP[op](a.a[0], b.a[0])))
        if op in ARI: return const(ARI[op](a.a[0], b.a[0]))
        if op == "Div" and b.a[0]: return const(a.a[0] // b.a[0])
        if op == "Rem" and b.a[0]: return const(a.a[0] % b.a[0])
    if op == "Gt": op, a, b = "Lt", b, a
    if op == "Ge": op, a, b = "Le", b, a
    if op == "Ne": return un_("Not", bin_("Eq", a, b))
    if op == "Le": return un_("Not", bin_("Lt", b, a))
    # nothing is below the smallest number or above the largest
    if op == "Lt" and is_const(b) and type(b.a[0]) is int and not is_const(a):
        if b.a[0] == -2**63: return const(0)
        if b.a[0] in (2**63, 2**64): return const(1)
    # more than a whole number: not less than the next
    if op == "Lt" and is_const(a) and type(a.a[0]) is int and not is_const(b): return un_("Not", bin_("Lt", b, const(a.a[0] + 1)))
    if op in COMM:
        if is_const(a) and not is_const(b): a, b = b, a
        elif is_const(a) == is_const(b) and a.id > b.id: a, b = b, a
    if op in ("Add", "Sub") and is_const(b) and b.a[0] == 0: return a
    if op == "Mul" and is_const(b) and b.a[0] == 1: return a
    # a quotient and one more where there is a rest
    if op == "Add":
        for x, y in ((a, b), (b, a)):
            z = y
            while z.op == "cast" or z.op == "call" and z.a[0].startswith("$from<bool,"): z = z.a[0] if z.op == "cast" else z.a[1][0]
            if x.op == "bin" and x.a[0] == "Div" and is_const(x.a[2]) and z.op == "un" and z.a[0] == "Not" and z.a[1].op == "bin" and z.a[1].a[0] == "Eq":
                e = z.a[1]
                if is_const(e.a[2]) and e.a[2].a[0] == 0 and e.a[1].op == "bin" and e.a[1].a[0] == "Rem" and e.a[1].a[1] is x.a[1] and e.a[1].a[2] is x.a[2]:
                    return mk("call", "core::num::<impl usize>::div_ceil", (x.a[1], x.a[2]))
    # nothing is left from a position on: it is not before the end
    if op == "Eq" and is_const(b) and b.a[0] == 0 and a.op == "len" and a.a[0].op == "slice" and isinstance(a.a[0].a[1], T) and a.a[0].a[1].op == "agg" and a.a[0].a[1].a[0].endswith("RangeFrom"):
        return un_("Not", bin_("Lt", a.a[0].a[1].a[4][0], mk("len", a.a[0].a[0])))
    # records of numbers are the same if all their parts are
    if op == "Eq" and a.op == b.op == "agg" and a.a[:4] == b.a[:4] and a.a[2] in ("", a.a[0].split("::")[-1]) and len(a.a[4]) > 1:
        e = None
        for x, y in zip(a.a[4], b.a[4]): e = bin_("Eq", x, y) if e is None else bin_("BitAnd", e, bin_("Eq", x, y))
        return e
    # comparing a boolean with a constant
    if op == "Eq" and is_const(b) and b.a[0] in (0, 1) and a.op in ("un", "bin") and (a.op == "un" and a.a[0] == "Not" or a.op == "bin" and a.a[0] in CMP):
        return a if b.a[0] == 1 else un_("Not", a)
    if op == "Eq" and a is b and a.op not in ("cast",): return const(1)
    return mk("bin", op, a, b)


def un_(op, a):
    if op == "Not":
        if is_const(a) and a.a[0] in (0, 1): return const(1 - a.a[0])
        if a.op == "un" and a.a[0] == "Not": return a.a[1]
    if op == "Neg" and is_const(a) and isinstance(a.a[0], (int, float)): return const(-a.a[0])
    if op == "PtrMetadata": return mk("len", a)
    return mk("un", op, a)


INTS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "i8": (-128, 127),
        "i16": (-32768, 32767), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}


def cast_(t, frm, to, kind):
    if frm == to: return t
    if kind.startswith(("PointerCoercion", "PtrToPtr", "Transmute", "Subtype")): return t
    if is_const(t) and isinstance(t.a[0], int) and to in INTS and INTS[to][0] <= t.a[0] <= INTS[to][1]: return t
    return mk("cast", t, to, frm)


def type_args(t):
    i = t.find("<")
    if i < 0 or not t.endswith(">"): return []
    out, d, cur = [], 0, ""
    for c in t[i + 1:-1]:
        if c in "<([": d += 1
        if c in ">)]": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    return out + ([cur.strip()] if cur.strip() else [])


def unref(t):
    t = (t or "").strip()
    while t.startswith("&") or t.startswith("alloc::boxed::Box<"):
        if t.startswith("&"): t = re.sub(r"^&('\w+ )?(mut )?", "", t)
        else: t = (type_args(t) or [""])[0]
    return t


def place_type(F, locals_, p):
    """type of a place, where it can be told"""
    t = locals_[p[0]] if p[0] < len(locals_) else None
    vn = None
    for e in p[1:]:
        if t is None: return None
        t = unref(t)
        if e == "*": continue
        if not isinstance(e, list): return None
        if e[0] == "v": vn = e[2]; continue
        if e[0] == "f":
            h = t.split("<")[0]
            if t.startswith("("):
                q = type_args("<" + t[1:-1] + ">"); t = q[e[1]] if e[1] < len(q) else None
            elif h in (OPT, "core::option::Option"): t = (type_args(t) or [None])[0]
            elif h in (RES, "core::result::Result"): q = type_args(t); t = q[1 if vn == "Err" else 0] if len(q) == 2 else None
            else:
                a = F.adts.get(h) or F.adts.get("s2protocol::" + h)
                if a is None: return None
                v = [x for x in a["variants"] if vn is None or x["name"] == vn]
                t = v[0]["fields"][e[1]][1] if v and e[1] < len(v[0]["fields"]) else None
                if t is not None and "<" in h: return None
            vn = None
        elif e[0] in ("i", "ci"):
            if t.startswith("["): t = t[1:-1].rsplit(";", 1)[0].strip()
            else: return None
        else: return None
    return t


def enum_size(F, t):
    if t is None: return None
    h = unref(t).split("<")[0]
    if h in (OPT, RES, CF, "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"): return 2
    a = F.adts.get(h) or F.adts.get("s2protocol::" + h)
    return len(a["variants"]) if a and a.get("enum") else None


def discr_(t):
    if t.op == "agg" and t.a[2] != "" or t.op == "agg" and t.a[0] not in ("", "tuple", "array"): return const(t.a[1])
    return mk("discr", t)


def at_(m, k):
    # an element of an array written out
    if m.op == "agg" and m.a[0] == "array" and is_const(k) and isinstance(k.a[0], int) and 0 <= k.a[0] < len(m.a[4]): return m.a[4][k.a[0]]
    # element at every index of the whole collection is the element of a walk over it
    if k.op == "elem":
        r = k.a[0]
        if r.op == "agg" and r.a[0].startswith("core::ops::range::Range") and "start" in r.a[3]:
            s, e = fld(r, "start"), fld(r, "end")
            if is_const(s) and s.a[0] == 0 and e.op == "len" and e.a[0] is m: return mk("elem", m, k.a[1])
    if k.op == "iterindex":
        return mk("elem", m, k.a[0]) if False else mk("at", m, k)
    return mk("at", m, k)


MUTATORS = re.compile(r"^\$retain_remove$|::(push|push_str|insert|remove|retain|clear|append|extend|extend_from_slice|sort\w*|dedup\w*|truncate|pop|swap_remove|swap|drain|resize\w*|reserve\w*|entry|read_to_end|read_to_string|read_exact|write|write_all|flush|finish|clone_from|get_or_insert_with|get_or_insert|or_insert\w*|next|next_back|split_off|fill|reverse|rotate\w*|lock|advance|seek|set_len|set\w*)$")
LOOKUP = re.compile(r"(HashMap|BTreeMap)<.*>::(get|get_mut)$|(HashMap|BTreeMap)::<.*>::(get|get_mut)$|core::slice::<impl \[T\]>::(get|get_mut)$|alloc::vec::Vec::<.*>::(get|get_mut)$|<impl \[T\]>::get_mut$")
INDEX = re.compile(r"(Index|IndexMut)<.*>>::index(_mut)?$|ops::index::Index(Mut)?::index(_mut)?$|<impl core::ops::index::Index(Mut)?<.*> for .*>::index(_mut)?$")
LEN = re.compile(r"::(len|input_len)$")
EQ = re.compile(r"(PartialEq(<.*>)?>?|<impl core::cmp::PartialEq(<.*>)? for .*>)::(eq|ne)$|^core::cmp::PartialEq::(eq|ne)$")
PORD = re.compile(r"(PartialOrd(<.*>)?>?|<impl core::cmp::PartialOrd(<.*>)? for .*>|^core::cmp::PartialOrd)::(lt|le|gt|ge)$")


BORROW = re.compile(r"::(iter_mut|values_mut|get_mut|index_mut|last_mut|first_mut|as_mut|as_mut_slice|par_iter_mut|iter|keys|values|len|deref_mut|by_ref|into_iter|chunks_mut)$")


class Values:
    """runs the analysis; afterwards: instr(bi) events are in .events, in block order"""

    def __init__(self, F, fl, max_pass=60):
        self.F = F; self.fl = fl
        self.multi = self._multi()
        self.phis = {}
        self.collapsed = {}; self.mutref = {}
        self.env = {}; self.arity = {}
        self.max_pass = max_pass
        self.run()

    def _multi(self):
        fl = self.fl; n = {}; m = set()
        for bb in fl.bbs:
            if bb is None: continue
            for s in bb["s"]:
                p, r = s[0], s[1]
                if r[0] == "unlock": continue
                if len(p) > 1:
                    if p[1] != "*": m.add(p[0])
                else: n[p[0]] = n.get(p[0], 0) + 1
                if r[0] == "ref" and r[2] and not (len(r[1]) > 1 and r[1][1] == "*"):
                    if not any(e == "*" for e in r[1][1:]): m.add(r[1][0])
                    elif r[1][1] != "*": m.add(r[1][0]) if False else None
            t = bb["t"]
            if t[0] == "call":
                p = t[3]
                if len(p) > 1:
                    if p[1] != "*": m.add(p[0])
                else: n[p[0]] = n.get(p[0], 0) + 1
        for i in range(1, fl.nargs + 1): n[i] = n.get(i, 0) + 1
        return m | {k for k, v in n.items() if v > 1}

    # ----- fixpoint -----
    def run(self):
        fl = self.fl
        self.rpo = fl.rpo()
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        self.preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in fsuccs(fl.bbs[b]["t"]): self.preds[s].append(b)
        self.out = {}; self.inn = {}
        self.phiset = set()
        self.live = self._liveness()
        init = {}
        for i in range(1, fl.nargs + 1):
            t = mk("param", i, fl.names.get(i, ""))
            self.env[i] = t
            if i in self.multi: init[i] = t
        changed = True; it = 0
        dirty = set(self.rpo)
        while dirty:
            it += 1
            if it > self.max_pass: raise Exception("value analysis does not settle: %s" % fl.root)
            nd = set()
            for b in self.rpo:
                if b not in dirty: continue
                dirty.discard(b)
                st = self._join(b, init)
                self.inn[b] = st
                st2 = dict(st)
                ev = self.env.copy() if False else None
                self.envchg = False
                self._exec(b, st2)
                if self.out.get(b) != st2 or self.envchg:
                    first = b not in self.out
                    self.out[b] = st2
                    if self.envchg and not first:
                        # a single-assignment value changed: everything later may depend on it
                        nd.update(self.rpo); 
                    for s in fsuccs(fl.bbs[b]["t"]):
                        if self.pos[s] > self.pos[b]: dirty.add(s)
                        else: nd.add(s)
            dirty = nd
        # record events with the final values
        self.ev = {}
        for b in self.rpo:
            st = dict(self.inn[b]); self.rec = []
            self._exec(b, st)
            self.ev[b] = self.rec
        self.rec = None

    rec = None

    def _liveness(self):
        """multi-assigned locals whose value may still be looked at"""
        fl = self.fl; always = {0}; use = {}; kill = {}
        def up(p, U, K):
            if p[0] not in K: U.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in K: U.add(e[1])
        def uo(o, U, K):
            if o and o[0] in "cm" and isinstance(o[1], list): up(o[1], U, K)
        for b in self.rpo:
            bb = fl.bbs[b]; U, K = set(), set()
            for s in bb["s"]:
                p, r = s[0], s[1]; k = r[0]
                if k == "unlock": up(r[1], U, K); continue
                if k == "use": uo(r[1], U, K)
                elif k == "ref":
                    up(r[1], U, K)
                    if r[2]: always.add(r[1][0])
                elif k == "cast": uo(r[2], U, K)
                elif k == "bin": uo(r[2], U, K); uo(r[3], U, K)
                elif k == "un": uo(r[2], U, K)
                elif k == "discr": up(r[1], U, K)
                elif k == "agg":
                    for o in r[5]: uo(o, U, K)
                elif k == "repeat": uo(r[1], U, K)
                if len(p) == 1: K.add(p[0])
                else: up(p, U, K)
            t = bb["t"]
            if t[0] == "call":
                uo(t[1], U, K)
                for o in t[2]: uo(o, U, K)
                if len(t[3]) == 1: K.add(t[3][0])
                else: up(t[3], U, K)
            elif t[0] in ("switch", "assert"): uo(t[1], U, K)
            elif t[0] == "panic":
                for o in t[2]: uo(o, U, K)
            use[b] = U; kill[b] = K
        live = {b: set(use[b]) for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in fsuccs(fl.bbs[b]["t"]): o |= live[s]
                n = use[b] | (o - kill[b])
                if len(n) != len(live[b]): live[b] = n; ch = True
        return {b: l | always for b, l in live.items()}

    def _join(self, b, init):
        ps = [p for p in self.preds[b] if p in self.out]
        if b == 0: ps_states = [(None, init)] + [(p, self.out[p]) for p in ps]
        else: ps_states = [(p, self.out[p]) for p in ps]
        if len(ps_states) == 1 and len(self.preds[b]) <= 1 and b != 0: return ps_states[0][1]
        keys = set()
        for _, s in ps_states: keys.update(s)
        lv = self.live[b]
        keys = [k for k in keys if not isinstance(k, int) or k in lv]
        r = {}
        for k in keys:
            ph = (b, k if isinstance(k, int) else k.id)
            vals = []
            for p, s in ps_states:
                v = s.get(k)
                if v is None:
                    if isinstance(k, int): continue      # not yet assigned on that path
                    v = k                                  # memory place: initial value
                vals.append((p, v))
            r[k] = self._merge(b, ph, vals, len(vals) == len(ps_states))
        return r

    def _merge(self, b, ph, vals, full):
        """one value from several incoming ones; like aggregates are merged field by field"""
        pt = mk("phi", b, ph[1])
        uniq = {v for _, v in vals if v is not pt}
        if len(uniq) == 1 and ph not in self.phiset: return next(iter(uniq))
        if len(uniq) == 1 and full and self.collapsed.get(ph, 0) < 3:
            self.collapsed[ph] = self.collapsed.get(ph, 0) + 1     # no longer a choice
            self.phiset.discard(ph); self.phis.pop(pt, None)
            return next(iter(uniq))
        if ph not in self.phiset:
            u = list(uniq); a = u[0]
            if a.op == "agg" and a.a[4] and all(x.op == "agg" and x.a[0] == a.a[0] and x.a[2] == a.a[2] and x.a[3] == a.a[3] for x in u):
                ops = tuple(self._merge(b, (b, ("f", ph[1], i)), [(p, v.a[4][i]) for p, v in vals], full) for i in range(len(a.a[4])))
                return mk("agg", a.a[0], a.a[1], a.a[2], a.a[3], ops)
        self.phiset.add(ph)
        self.phis[pt] = dict(vals)
        return pt

    # ----- places -----
    def local(self, l, st):
        if l in self.multi: return st.get(l) or mk("uninit", l)
        return self.env.get(l) or mk("undef", l)

    def addr(self, p, st):
        """('L', local, path) or ('H', term)"""
        a = ("L", p[0], ())
        for e in p[1:]:
            if e == "*":
                t = self.load(a, st)
                if t.op == "ptr": a = ("L", t.a[0], t.a[1])
                else: a = ("H", t)
            elif isinstance(e, list):
                if e[0] == "f":
                    k = self.fkey(e)
                    a = ("L", a[1], a[2] + (k,)) if a[0] == "L" else ("H", fld(a[1], k))
                elif e[0] == "v":
                    a = ("L", a[1], a[2] + (("v", e[2]),)) if a[0] == "L" else ("H", var(a[1], e[2]))
                elif e[0] == "i":
                    base = self.load(a, st)
                    a = ("H", at_(base, self.local(e[1], st)))
                elif e[0] == "ci":
                    base = self.load(a, st)
                    a = ("H", at_(base, const(e[1]) if not e[2] else mk("fromend", e[1])))
                else:
                    base = self.load(a, st); a = ("H", mk("slice", base, str(e[1:])))
            else: a = ("H", mk("opaque", self.load(a, st)))
        return a

    @staticmethod
    def fkey(e):
        return e[2] if e[2] and not e[2].startswith("^") else str(e[1])

    def load(self, a, st):
        if a[0] == "L":
            t = self.local(a[1], st)
            # a mutable reference is the place it refers to, not what that holds now
            if not a[2] and self.ismut(a[1]): return t
            # part of what is referred to, where an optional reference is a reference to the option
            if a[2] and t.op == "ptr": return mk("ptr", t.a[0], t.a[1] + a[2])
            return self.mem(rd(t, a[2]), st)
        return self.mem(a[1], st)

    def ismut(self, l):
        if l not in self.mutref: self.mutref[l] = l < len(self.fl.locals) and bool(re.match(r"&('\w+ )?mut ", self.fl.locals[l] or ""))
        return self.mutref[l]

    def mem(self, t, st):
        if t.op in ("fld", "at", "var", "param", "elem"):
            v = st.get(t)
            if v is not None: return v
            if t.op in ("fld", "var"):
                b = self.mem(t.a[0], st)
                if b is not t.a[0]: return fld(b, t.a[1]) if t.op == "fld" else var(b, t.a[1])
        return t

    def read(self, p, st):
        return self.load(self.addr(p, st), st)

    def opnd(self, o, st):
        if o[0] in "cm": return self.read(o[1], st)
        if o[0] == "k": return self.constant(o[1])
        return mk("unknown")

    def constant(self, c):
        if "fn" in c: return mk("fn", c["fn"]["rp"])
        if "closure" in c: return mk("closure", c["closure"], 0, "", (), ())
        if c.get("v") is not None:
            if c["t"].lstrip("&").split("<")[0] in self.F.adts: return self.enum_const(c)
            return const(c["v"], "")
        if c.get("s") is not None: return const(c["s"], "str")
        if c.get("fl") is not None: return const(float(c["fl"]) if c["fl"] not in ("NaN",) else c["fl"], "")
        if c.get("bytes") is not None:
            m = re.match(r"&?(?:'\w+ )?core::option::Option<([ui](?:8|16|32|64|size))>$", c["t"])
            by = bytes(int(q) for q in re.findall(r"\d+", c["bytes"])) if m and re.match(r"^\[[\d, ]*\]$", c["bytes"]) else b""
            if by and len(by) % 2 == 0:
                w = len(by) // 2
                i = int.from_bytes(by[:w], "little")
                x = int.from_bytes(by[w:], "little", signed=m.group(1)[0] == "i")
                if i in (0, 1): return mk("agg", OPT, i, ("None", "Some")[i], ("0",) if i else (), (const(x),) if i else ())
            return const("bytes" + c["bytes"], "bytes")
        if "pbody" in c and "promoted" in c:
            d, i = c["promoted"]
            if d in self.F.stubs: return self.promoted(d, i)
        if "promoted" in c and c["promoted"][0] in self.F.stubs: return self.promoted(*c["promoted"])
        if "item" in c:
            it = c["item"]
            if it in self.F.stubs:
                v = self.const_item(it)
                if v is not None: return v
            return mk("item", it)
        if c["t"] == "()": return mk("agg", "tuple", 0, "", (), ())
        return mk("konst", c.get("d", "?"))

    def enum_const(self, c):
        adt = self.F.adts[c["t"].lstrip("&").split("<")[0]]
        if adt["enum"]:
            for i, v in enumerate(adt["variants"]):
                if str(v["discr"]) == str(c["v"]) and not v["fields"]:
                    return mk("agg", adt["id"], i, v["name"], (), ())
        return mk("konst", c.get("d", "?"))

    def promoted(self, d, i):
        key = (d, i)
        cache = self.F.__dict__.setdefault("_promv", {})
        if key in cache: return cache[key]
        cache[key] = mk("konst", "promoted %s %s" % key)
        b = self.F.body(d).promoted(i)
        cache[key] = self._straight(b)
        return cache[key]

    def const_item(self, it):
        cache = self.F.__dict__.setdefault("_constv", {})
        if it in cache: return cache[it]
        cache[it] = None
        b = self.F.body(it)
        v = b.value
        if v and any(v.get(k) is not None for k in ("v", "s", "fl", "bytes")): cache[it] = self.constant({k: x for k, x in v.items() if k != "item"})
        elif len([x for x in b.bbs if x]) <= 3: cache[it] = self._straight(b)
        return cache[it]

    def _straight(self, b):
        from flat import Flat
        fl = Flat(); fl.locals = b.locals; fl.nargs = 0; fl.root = b.id
        for bb in b.bbs:
            fl.bbs.append(None if bb is None else {"s": [[s[0], s[1], (b.id, 0, "")] for s in bb["s"]], "t": bb["t"], "src": (b.id, 0, ""), "fr": 0})
        # constants inside refer to their own body's promoteds
        v = Values(self.F, fl)
        for x in v.rpo:
            if fl.bbs[x]["t"][0] == "return": return v.local(0, v.out[x])
        return mk("konst", "?")

    # ----- transfer -----
    def setplace(self, p, v, st, b, src, ev="store"):
        if len(p) == 1:
            l = p[0]
            if l in self.multi: st[l] = v
            else:
                if self.env.get(l) is not v:
                    self.env[l] = v; self.envchg = True
            return
        a = self.addr(p, st)
        self.store(a, v, st, src, b)

    def store(self, a, v, st, src, b):
        if a[0] == "L":
            l = a[1]
            base = st.get(l)
            if base is None: base = self.env.get(l) or mk("uninit", l)
            t = rd(base, a[2][:-1]) if a[2] else base
            nb = upd(base, a[2], v)
            if l in self.multi: st[l] = nb
            else: self.env[l] = nb
            if self.rec is not None: self.rec.append(("lstore", l, a[2], v, src, base))
            return
        t = a[1]
        if self.rec is not None: self.rec.append(("store", t, v, src, self.mem(t, st)))
        self.kill(t, st)
        st[t] = v

    def kill(self, t, st):
        """forget remembered memory that may overlap place t"""
        if self.rec is not None: self.rec.append(("kill", t))
        lastf = lastfield(t)
        for k in [k for k in st if not isinstance(k, int)]:
            if k is t or mentions(k, t): del st[k]; continue
            if lastfield(k) == lastf and k is not t and not disjoint(k, t): del st[k]

    def _exec(self, b, st):
        bb = self.fl.bbs[b]
        for s in bb["s"]:
            r = s[1]
            if r[0] == "unlock":
                if self.rec is not None: self.rec.append(("unlock", self.read(r[1], st), s[2]))
                continue
            v = self.rvalue(r, st, b)
            if self.rec is not None and r[0] == "agg" and r[1] == "adt": self.rec.append(("agg", v, s[2]))
            if self.rec is not None and r[0] == "cast" and r[1] in ("IntToInt", "FloatToInt"): self.rec.append(("cast", self.opnd(r[2], st), r[3], r[4], s[2]))
            self.setplace(s[0], v, st, b, s[2])
        t = bb["t"]
        if t[0] == "call": self.call(b, bb, t, st)
        elif self.rec is not None:
            if t[0] == "switch": self.rec.append(("switch", self.opnd(t[1], st), bb["src"]))
            elif t[0] == "assert": self.rec.append(("assert", t[3], self.opnd(t[1], st), bb["src"], t[2]))
            elif t[0] == "panic": self.rec.append(("panic", t[1], tuple(self.opnd(a, st) for a in t[2]), bb["src"]))
            elif t[0] == "return": self.rec.append(("return", self.local(0, st), bb["src"]))

    def rvalue(self, r, st, b):
        k = r[0]
        if k == "use": return self.opnd(r[1], st)
        if k == "ref":
            a = self.addr(r[1], st)
            if r[2] and a[0] == "L":
                if a[1] in self.multi:
                    return mk("ptr", a[1], a[2])
                return self.load(a, st)
            if r[2]: return a[1]
            return self.load(a, st)
        if k == "cast": return cast_(self.opnd(r[2], st), r[3], r[4], r[1])
        if k == "bin":
            op = r[1]
            a_, b_ = self.opnd(r[2], st), self.opnd(r[3], st)
            if op in ("Lt", "Le", "Gt", "Ge"):
                # a number without sign is above zero exactly when it is not zero
                t = next((o[1].get("t", "") for o in (r[2], r[3]) if o[0] == "k"), "")
                if t in ("u8", "u16", "u32", "u64", "usize", "u128"):
                    x, y, o = (a_, b_, op) if is_const(b_) else (b_, a_, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op])
                    if is_const(y) and not is_const(x):
                        if (o, y.a[0]) in (("Gt", 0), ("Ge", 1)): return un_("Not", bin_("Eq", x, const(0)))
                        if (o, y.a[0]) in (("Le", 0), ("Lt", 1)): return bin_("Eq", x, const(0))
                        if (o, y.a[0]) in (("Ge", 0), ("Lt", 0)): return const(int(o == "Ge"))
                        if t == "u8" and (o, y.a[0]) in (("Lt", 128), ("Le", 127), ("Ge", 128), ("Gt", 127)):
                            # the upper half of the bytes has the upper bit
                            e = bin_("Eq", bin_("BitAnd", x, const(128)), const(0))
                            return e if o in ("Lt", "Le") else un_("Not", e)
            if op.endswith("WithOverflow"): return mk("agg", "tuple", 0, "", ("0", "1"), (bin_(op[:-12], a_, b_), const(0)))
            x = bin_(op, a_, b_)
            if op.startswith("Shl"):
                o = r[2]
                t = o[1].get("t", "") if o[0] == "k" else place_type(self.F, self.fl.locals, o[1])
                if t in ("u8", "u16", "u32", "i8", "i16", "i32"): SHL.setdefault(x, set()).add(t)
            return x
        if k == "un": return un_(r[1], self.opnd(r[2], st))
        if k == "discr":
            d = discr_(self.val(self.read(r[1], st), st))
            if d.op == "discr" and d not in self.arity:
                n = enum_size(self.F, place_type(self.F, self.fl.locals, r[1]))
                if n: self.arity[d] = n
            g = getattr(self.fl, "given", None)
            if g is not None and d.op == "discr":
                i = g(d.a[0])
                if i is not None: return const(i)
            return d
        if k == "agg":
            ops = tuple(self.opnd(o, st) for o in r[5])
            if r[1] == "adt":
                names = tuple(r[6]) if r[6] else tuple(str(i) for i in range(len(ops)))
                return mk("agg", r[2], r[3], r[4], names, ops)
            names = tuple(str(i) for i in range(len(ops)))
            if r[1] == "closure": return mk("closure", r[2], 0, "", names, ops)
            return mk("agg", "tuple" if r[1] == "tuple" else r[1], 0, "", names, ops)
        if k == "repeat": return mk("repeat", self.opnd(r[1], st), r[2])
        if k == "iterindex": return mk("iterindex", r[1])
        if k == "setdiscr": return mk("setdiscr", r[1])
        return mk("other", str(r[1])[:60])

    def val(self, t, st):
        """the current value behind an argument"""
        n = 0
        while t.op == "ptr" and n < 10:
            t = self.load(("L", t.a[0], t.a[1]), st); n += 1
        return t

    def deepval(self, t, st, d=0):
        t = self.val(t, st)
        if d < 4 and t.op in ("agg", "closure") and any(isinstance(x, T) and x.op in ("ptr", "agg") for x in t.a[4]):
            return mk(t.op, t.a[0], t.a[1], t.a[2], t.a[3], tuple(self.deepval(x, st, d + 1) for x in t.a[4]))
        return t

    def call(self, b, bb, t, st):
        func, args, dest, target = t[1], t[2], t[3], t[4]
        raw = [self.opnd(a, st) for a in args]
        vals = [self.mem(x, st) if self.is_mut_arg(a) and x.op != "ptr" else self.deepval(x, st) for a, x in zip(args, raw)]
        if func[0] == "k" and "fn" in func[1]: rp = func[1]["fn"]["rp"]; f = func[1]["fn"]
        else: rp = "$indirect"; f = None
        if re.match(r"<alloc::string::String as core::ops::arith::AddAssign<.*>>::add_assign$", rp): rp = "alloc::string::String::push_str"
        # text is never refused by a string
        if re.search(r"core::fmt::Write(>|<.*>)?::write_fmt$", rp) and "alloc::string::String" in str((f or {}).get("g")): rp = "alloc::string::String::push_str"
        site = b
        res = self.pure(rp, f, vals, site, st, raw)
        mutated = []
        if res is None:
            # which arguments can the callee change?
            for i, (a, x) in enumerate(zip(args, raw)):
                if BORROW.search(rp): continue
                if x.op == "ptr": mutated.append((i, x))
                elif self.is_mut_arg(a) or (i == 0 and MUTATORS.search(rp)): mutated.append((i, x))
            imp = bool(mutated) or impure(rp) or len(t[3]) == 1 and READER.match(self.fl.locals[t[3][0]])
            res = mk("call", rp, tuple(vals), site) if imp else mk("call", rp, tuple(vals))
        if rp.endswith("::clone_from") and len(raw) == 2:
            # an assignment
            x = raw[0]
            self.store(("L", x.a[0], x.a[1]) if x.op == "ptr" else ("H", x), vals[1], st, bb["src"], b)
            if target is not None: self.setplace(dest, res, st, b, bb["src"])
            return
        if self.rec is not None: self.rec.append(("call", rp, tuple(vals), res, bb["src"], f, tuple(raw), tuple(i for i, x in mutated)))
        # values defined here are new objects on every execution
        if res.op in ("call", "iternext") and res.a and res.a[-1] == site or rp == "$iternext":
            for k in [k for k in st if not isinstance(k, int) and mentions(k, res)]: del st[k]
            if rp == "$iternext":
                e = mk("elem", vals[0], vals[1].a[0])
                for k in [k for k in st if not isinstance(k, int) and mentions(k, e)]: del st[k]
        for i, x in mutated:
            if rp in ("$iternext",): continue
            rest = tuple(v for j, v in enumerate(vals) if j != i)
            if x.op == "ptr":
                old = self.load(("L", x.a[0], x.a[1]), st)
                nv = mk("mut", old, rp, rest, site)
                base = st.get(x.a[0]) or mk("uninit", x.a[0])
                st[x.a[0]] = upd(base, x.a[1], nv)
            else:
                # memory behind a reference: forget what was known below it
                if x.op in ("mut", "phi", "upd", "agg"):
                    ks = [k for k in st if not isinstance(k, int) and st[k] is x]
                    if len(ks) == 1: x = ks[0]
                self.kill_below(x, st)
                if x.op in ("fld", "at", "var", "param", "elem", "lookup"):
                    st[x] = mk("mut", vals[i], rp, rest, site)
        if target is not None: self.setplace(dest, res, st, b, bb["src"])

    def kill_below(self, x, st):
        if self.rec is not None: self.rec.append(("kill", x))
        for k in [k for k in st if not isinstance(k, int)]:
            if mentions(k, x) or lastfield(k) == lastfield(x) and not disjoint(k, x): del st[k]

    def is_mut_arg(self, a):
        if a[0] not in "cm" or len(a[1]) != 1: return False
        ty = self.fl.locals[a[1][0]]
        return bool(re.match(r"&('\w+ )?mut ", ty))

    def pure(self, rp, f, v, site, st, raw):
        if rp == "$iternext":
            if len(v) == 3 and v[2].a[0] >= UNROLLED:
                # a round of a loop over an array that is written out
                a, k = v[0], v[2].a[0] - UNROLLED
                while a.op == "call" and len(a.a[1]) == 1: a = a.a[1][0]
                if a.op == "agg" and a.a[0] == "array":
                    return mk("agg", OPT, 1, "Some", ("0",), (a.a[4][k],)) if k < len(a.a[4]) else mk("agg", OPT, 0, "None", (), ())
            return mk("iternext", v[0], v[1].a[0], site)
        if rp == "$clone": return v[0]
        if rp == "$first_of" and len(v) == 2: return mk("slice", self.keep(raw[0], st), mk("agg", "core::ops::range::RangeTo", 0, "RangeTo", ("end",), (v[1],)))
        if LOOKUP.search(rp) and len(v) == 2: return mk("lookup", self.keep(raw[0], st), v[1])
        if rp.endswith("::contains_key") and len(v) == 2:
            return bin_("Eq", mk("discr", mk("lookup", v[0], v[1])), const(1))
        if INDEX.search(rp) and len(v) == 2:
            if v[1].op == "agg" and v[1].a[0].startswith("core::ops::range::"):
                if v[1].a[0].endswith("RangeFull"): return v[0]
                return mk("slice", v[0], v[1])
            return at_(self.keep(raw[0], st), v[1])
        if LEN.search(rp) and len(v) == 1: return mk("len", v[0])
        if re.search(r"slice::<impl \[T\]>::contains$|Vec::<T(, A)?>::contains$", rp) and len(v) == 2: return bin_("Eq", mk("elem", v[0], "any"), v[1])
        if rp.endswith("::is_empty") and len(v) == 1: return bin_("Eq", mk("len", v[0]), const(0))
        if EQ.search(rp) and len(v) == 2:
            e = bin_("Eq", v[0], v[1])
            return e if rp.endswith("eq") else un_("Not", e)
        m = PORD.search(rp)
        if m and len(v) == 2: return bin_({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m.group(4)], v[0], v[1])
        m = re.search(r"Ord>::(min|max)$|Ord for .*>::(min|max)$|cmp::Ord::(min|max)$|^core::cmp::(min|max)$", rp)
        if m and len(v) == 2:
            a, b = v if v[0].id < v[1].id else v[::-1]
            return mk("bin", (m.group(1) or m.group(2) or m.group(3) or m.group(4)), a, b)
        if rp.endswith("::default") and not v:
            ty = None
            m = re.match(r"<(.*) as core::default::Default>::default$", rp)
            if m: ty = m.group(1)
            elif f and f.get("g"): ty = f["g"][0]
            if getattr(self.fl, "expand_default", False): return self.deep_default(ty, site)
            return self.default(ty, site)
        if rp in ("alloc::string::String::new",): return const("", "str")
        if rp == "alloc::string::String::with_capacity": return const("", "str")
        if re.search(r"Vec::<T>::new$|VecDeque::<T>::new$", rp) or rp == "$new_collection": return mk("newcoll")
        if re.search(r"Vec::<T>::with_capacity$|HashMap.*::with_capacity$", rp) and v: return mk("newcoll")
        if re.search(r"HashMap::<K, V>::new$|HashMap.*Default", rp): return mk("newcoll")
        if rp == "core::mem::size_of": return mk("sizeof", (f["g"] or ["?"])[0])
        m = re.match(r"\$from<(\w+),(\w+)>$", rp)
        if m and m.group(1) in INTS and m.group(2) in INTS: return cast_(v[0], m.group(1), m.group(2), "IntToInt")
        if rp in ("$from<&str,String>", "$from<&str,alloc::string::String>", "$from<&str,PathBuf>", "$from<String,PathBuf>"): return v[0]
        m = re.search(r"core::num::<impl \w+>::(wrapping|unchecked)_(add|sub|mul|shl|shr)$", rp)
        if m and len(v) == 2 and m.group(1) == "unchecked": return bin_(m.group(2).capitalize(), *v)
        m = re.search(r"as core::ops::arith::(Add|Sub|Mul|Div|Rem)(<.*>)?>::\w+$|<impl core::ops::arith::(Add|Sub|Mul|Div|Rem)(<.*>)? for .*>::\w+$", rp)
        if rp.startswith("<alloc::string::String as core::ops::arith::Add<") and len(v) == 2: return mk("mut", v[0], "alloc::string::String::push_str", (v[1],), site)
        if m and len(v) == 2: return bin_(m.group(1) or m.group(3), *v)
        if re.search(r"<\w+ as core::clone::Clone>::clone|<impl core::clone::Clone for .*>::clone$", rp): return v[0]
        return None

    def keep(self, x, st):
        """indexing through a mutable borrow of a tracked local gives its current value"""
        return self.val(x, st)

    def default(self, ty, site):
        if ty is None: return mk("default", "?")
        if ty in INTS or ty == "bool": return const(0)
        if ty in ("f32", "f64"): return const(0.0)
        if ty.endswith("string::String") or ty in ("&str", "String"): return const("", "str")
        if ty.startswith(("core::option::Option", "Option")): return mk("agg", OPT, 0, "None", (), ())
        if "Vec<" in ty.split("(")[0][:30] or "HashMap" in ty: return mk("newcoll")
        return mk("default", ty)

    def deep_default(self, ty, site, d=0):
        """a record whose default is derived has the defaults of its fields"""
        a = self.F.adts.get(ty) or self.F.adts.get("s2protocol::" + ty) if ty else None
        if a is None or d > 4 or len(a["variants"]) != 1 or a.get("enum"): return self.default(ty, site)
        own = [s for s in self.F.by_pretty.get("<%s as core::default::Default>::default" % a["p"], [])]
        if not own or not all(self.F.impl_exp(getattr(i, "id", i)) for i in own): return self.default(ty, site)
        fs = a["variants"][0]["fields"]
        return mk("agg", a["id"], 0, a["variants"][0]["name"] if False else "", tuple(f[0] for f in fs), tuple(self.deep_default(f[1], site, d + 1) for f in fs))

    # ----- helpers for rules -----
    def operands(self, t):
        """non-phi values a term may be (through phis)"""
        out = set(); seen = set(); st = [t]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == "phi": st.extend(self.phis.get(x, {}).values())
            else: out.add(x)
        return out

    def where(self, src):
        bid, line, _ = src
        s = self.F.stubs.get(bid)
        return "%s:%s in %s" % (s.file if s else "?", line, s.p if s else bid)


def lastfield(t):
    while t.op == "var": t = t.a[0]
    if t.op == "fld": return t.a[1]
    if t.op == "at": return "[]"
    if t.op == "elem": return "[]"
    return None


def path_of(t):
    p = []
    while t.op in ("fld", "var", "at"):
        p.append(t.a[1] if t.op != "at" else ("[]", t.a[1]))
        t = t.a[0]
    return t, p[::-1]


def disjoint(a, b):
    """provably different memory: same root, paths that part at different fields, or different parameters"""
    ra, pa = path_of(a); rb, pb = path_of(b)
    if ra.op == "param" and rb.op == "param" and ra is not rb: return True
    if ra is not rb: return False
    for x, y in zip(pa, pb):
        if x == y: continue
        if isinstance(x, tuple) and isinstance(y, tuple):
            return is_const(x[1]) and is_const(y[1])
        return True
    return False


# decoding steps: two of them are never the same value
READER = re.compile(r"^(?:core::result::)?Result<\((?:&(?:'\w+ )?\[u8\]|\(&(?:'\w+ )?\[u8\], usize\)), ")
IMPURE = re.compile(r"^std::(fs|io|env|time|thread|process)|::(lock|read_to_end|next|read_dir|open|create|now)$|^\$apply$|^\$indirect$")


def impure(rp): return bool(IMPURE.search(rp))
