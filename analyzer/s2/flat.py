"""Flatten a function: inline crate-local callees and expand the closures handed to Option / Result /
iterator combinators into plain control flow, so that a helper call, a closure and a hand-written
`match` or loop have the same form.  The result is one control-flow graph in the facts format."""
import re
from facts import Facts, Body, succs, retarget, norm_ty
from counters import counters

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"

PANICS = ("core::panicking::", "std::rt::begin_panic", "core::option::unwrap_failed", "core::option::expect_failed",
          "core::result::unwrap_failed", "std::process::abort", "std::process::exit", "core::slice::index::slice_",
          "alloc::alloc::handle_alloc_error")

# value-preserving calls: the result is the (referenced) argument itself
TRANSPARENT = re.compile(
    r"(::clone::Clone(>|)(::| for .*>::)clone$|as core::clone::Clone>::clone$|::to_owned$|::to_string$|ToString>::to_string$"
    r"|<.* as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|core::ops::deref::Deref(Mut)?::deref(_mut)?$"
    r"|alloc::boxed::Box::<T>::new$|alloc::rcs::arc::Arc::<T>::new$|alloc::rc::Rc::<T>::new$"
    r"|::to_vec$|::as_slice$|::as_mut_slice$|::as_str$|::as_bytes$|::into_bytes$|::into_boxed_slice$|::as_path$|::to_path_buf$"
    r"|AsRef(<.*>)?>?::as_ref$|AsMut(<.*>)?>?::as_mut$|Borrow(Mut)?(<.*>)?>?::borrow(_mut)?$|core::hint::black_box$|core::hint::must_use$"
    r"|core::option::Option::<T>::(as_ref|as_mut|as_deref|as_deref_mut|as_slice)$"
    r"|core::option::Option::<&(mut )?T>::(copied|cloned)$|core::result::Result::<&(mut )?T, E>::(copied|cloned)$"
    r"|core::result::Result::<T, E>::(as_ref|as_mut|as_deref|as_deref_mut)$"
    r"|<alloc::string::String as core::convert::From<&(mut )?str>>::from$|<std::path::PathBuf as core::convert::From<.*>>::from$"
    r"|<alloc::boxed::Box<T> as core::convert::From<T>>::from$|<T as core::convert::From<T>>::from$"
    r"|core::mem::(ManuallyDrop|MaybeUninit).*::(new|into_inner)$|<&T as core::convert::.*"
    r"|alloc::boxed::box_assume_init_into_vec_unsafe$|alloc::slice::<impl \[T\]>::into_vec$|alloc::string::String::into_boxed_str$"
    r"|std::ffi::os_str::OsStr::to_string_lossy$|alloc::borrow::Cow<.*>::into_owned$|std::path::Path::new$"
    r"|core::str::<impl str>::to_owned$|alloc::str::<impl .*>::to_owned$|<&mut I as .*IntoIterator>::into_iter$"
    r"|core::iter::traits::iterator::Iterator::by_ref$|std::ffi::os_str::OsString::into_string$)")

ITER_BASE = re.compile(
    r"(::iter$|::iter_mut$|::into_iter$|::par_iter$|::par_iter_mut$|::into_par_iter$|::drain$|::chars$|::bytes$|::lines$)")

# Iterator::<method> name -> adapter
ADAPT = {"map": "map", "filter": "filter", "filter_map": "filter_map", "flat_map": "flat_map", "enumerate": "enumerate",
         "cloned": "id", "copied": "id", "by_ref": "id", "peekable": "id", "fuse": "id", "take": "take", "skip": "skip",
         "rev": "rev", "inspect": "inspect", "take_while": "take_while", "map_while": "map_while", "chain": "chain", "zip": "zip",
         "flatten": "flatten", "step_by": "step_by", "skip_while": "skip_while", "into_iter": "id", "into_par_iter": "id",
         "with_min_len": "id", "with_max_len": "id", "par_bridge": "id", "seq": "id"}
CONSUME = {"for_each", "collect", "any", "all", "find", "find_map", "position", "count", "fold", "sum", "last", "try_for_each",
           "max", "min", "max_by_key", "min_by_key", "partition", "unzip", "try_fold", "nth", "find_first", "find_any", "position_first", "position_any", "extend", "reduce"}


def is_iter_method(rp):
    m = re.match(r"(core::iter::traits::iterator::Iterator|core::iter::traits::double_ended::DoubleEndedIterator|rayon::iter::(?:\w+::)*(?:Indexed)?ParallelIterator|core::iter::traits::collect::Extend)::(\w+)$", rp)
    if m: return m.group(2)
    m = re.match(r"<.* as (?:core::iter::traits::iterator::Iterator|core::iter::traits::double_ended::DoubleEndedIterator|rayon::iter::(?:\w+::)*(?:Indexed)?ParallelIterator)>::(\w+)$", rp)
    if m: return m.group(1)
    m = re.match(r".*<impl (?:core::iter::traits::iterator::Iterator|core::iter::traits::double_ended::DoubleEndedIterator) for .*>::(\w+)$", rp)
    if m: return m.group(1)
    m = re.match(r"core::option::Option::<.*>::(iter|into_iter)$", rp)
    return None


class Flat:
    """blocks: [{'s': [[place, rvalue, src]...], 't': terminator, 'src': src, 'fr': frame}]"""

    def __init__(self):
        self.locals = []; self.bbs = []; self.names = {}; self.nargs = 0
        self.closure_ty = {}; self.frames = []; self.inlined = set(); self.root = None
        self.scope = {}

    def new_local(self, ty, name=None):
        self.locals.append(ty)
        i = len(self.locals) - 1
        if name: self.names[i] = name
        return i

    def new_block(self, src, fr, s=None, t=None):
        self.bbs.append({"s": s or [], "t": t, "src": src, "fr": fr})
        return len(self.bbs) - 1

    def size(self): return sum(1 for b in self.bbs if b is not None)

    def preds(self):
        p = {i: [] for i, b in enumerate(self.bbs) if b is not None}
        for i, b in enumerate(self.bbs):
            if b is None: continue
            for s in fsuccs(b["t"]): p[s].append(i)
        return p

    def rpo(self):
        seen = set(); out = []
        st = [(0, iter(fsuccs(self.bbs[0]["t"])))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(fsuccs(self.bbs[s]["t"])))); break
            else:
                out.append(n); st.pop()
        return out[::-1]

    def prune(self):
        live = set(self.rpo())
        for i in range(len(self.bbs)):
            if i not in live: self.bbs[i] = None


def copy_term(t):
    return [[list(x) for x in e] if t[0] == "switch" and i == 3 else list(e) if isinstance(e, list) else e for i, e in enumerate(t)]


def fsuccs(t):
    if t[0] == "panic": return []
    return succs(t)


def _shift_place(p, off, loff):
    r = [p[0] + loff]
    for e in p[1:]:
        r.append(["i", e[1] + loff] if isinstance(e, list) and e[0] == "i" else e)
    return r


def _shift_op(o, loff, bid):
    if o[0] in "cm": return [o[0], _shift_place(o[1], 0, loff)]
    if o[0] == "k" and "promoted" in o[1] and "bytes" not in o[1] and "s" not in o[1] and "v" not in o[1]:
        c = dict(o[1]); c["pbody"] = bid
        return ["k", c]
    return o


def _shift_rv(r, loff, bid):
    k = r[0]
    if k == "use": return ["use", _shift_op(r[1], loff, bid)]
    if k == "ref": return ["ref", _shift_place(r[1], 0, loff), r[2]]
    if k == "cast": return ["cast", r[1], _shift_op(r[2], loff, bid), r[3], r[4]]
    if k == "bin": return ["bin", r[1], _shift_op(r[2], loff, bid), _shift_op(r[3], loff, bid)]
    if k == "un": return ["un", r[1], _shift_op(r[2], loff, bid)]
    if k == "discr": return ["discr", _shift_place(r[1], 0, loff), r[2]]
    if k == "agg": return ["agg", r[1], r[2], r[3], r[4], [_shift_op(x, loff, bid) for x in r[5]], r[6]]
    if k == "repeat": return ["repeat", _shift_op(r[1], loff, bid), r[2]]
    if k == "unlock": return ["unlock", _shift_place(r[1], 0, loff)]
    return r


def C(v, t="usize"): return ["k", {"t": t, "v": v}]
def FN(name, g=()): return ["k", {"t": "fn", "fn": {"p": name, "id": name, "rp": name, "rid": name, "k": "item", "g": list(g), "rg": [], "local": False}}]
def none(): return ["agg", "adt", OPT, 0, "None", [], []]
def some(o): return ["agg", "adt", OPT, 1, "Some", [o], ["0"]]
def okr(o): return ["agg", "adt", RES, 0, "Ok", [o], ["0"]]
def errr(o): return ["agg", "adt", RES, 1, "Err", [o], ["0"]]
def tup(*os): return ["agg", "tuple", "", 0, "", list(os), []]
def pay(l, vi, vn): return ["m", [l, ["v", vi, vn], ["f", 0, "0", ""]]]


class Flattener:
    """stop(callee_id, pretty) -> True keeps a crate-local call opaque"""

    mark_copies = False

    def __init__(self, F, stop=None, max_blocks=6000, max_depth=24):
        self.F = F; self.stop = stop or (lambda i, p: False)
        self.max_blocks = max_blocks; self.max_depth = max_depth
        self.closure_by_ty = {}
        for s in F.stubs.values():
            if s.bk == "closure":
                m = re.search(r'"locals":\["(?:[^"\\]|\\.)*","(?:&mut |&)?(?:\'\w+ )?(\{closure@[^"]*?\})"', s.raw)
                if m: self.closure_by_ty[m.group(1)] = s.id

    # ----- entry -----
    def flatten(self, bid):
        b = self.F.body(bid)
        fl = Flat(); fl.root = bid; fl.nargs = b.nargs
        self.fl = fl
        self.work = []
        fl.frames.append((bid, None, (bid,)))
        self.defs = {}   # local -> list of (kind, payload)
        self._copy(b, 0)
        self._run()
        fl.prune()
        for bb in fl.bbs:
            if bb is not None: bb["t"] = copy_term(bb["t"])
        counters(fl, fsuccs)
        return fl

    def _def(self, l, d): self.defs.setdefault(l, []).append(d)

    def _copy(self, b, fr):
        """append the blocks of body b; returns (local offset, entry block)"""
        fl = self.fl
        loff = len(fl.locals); fl.locals.extend(b.locals)
        for k, v in b.names.items(): fl.names[k + loff] = v
        idx = {}
        base = len(fl.bbs)
        order = [i for i, x in enumerate(b.bbs) if x is not None]
        for n, i in enumerate(order): idx[i] = base + n
        for i in order:
            bb = b.bbs[i]
            ss = []
            for s in bb["s"]:
                pl = _shift_place(s[0], 0, loff); rv = _shift_rv(s[1], loff, b.id)
                ss.append([pl, rv, (b.id, s[2], s[3])])
                if rv[0] != "unlock": self._def(pl[0], ("st", pl, rv) if len(pl) == 1 else ("part", pl, rv))
            t = bb["t"]
            k = t[0]
            if k == "switch": t = ["switch", _shift_op(t[1], loff, b.id), t[2], [[v, x] for v, x in t[3]], t[4]]
            elif k == "call": t = ["call", _shift_op(t[1], loff, b.id), [_shift_op(a, loff, b.id) for a in t[2]], _shift_place(t[3], 0, loff), t[4]]
            elif k == "assert": t = ["assert", _shift_op(t[1], loff, b.id), t[2], t[3], t[4]]
            else: t = [list(x) if isinstance(x, list) else x for x in t]
            retarget(t, lambda x: idx[x])
            fl.bbs.append({"s": ss, "t": t, "src": (b.id, bb["l"], bb.get("x", "")), "fr": fr})
            if t[0] == "call":
                self._def(t[3][0], ("call", idx[i]) if len(t[3]) == 1 else ("part", t[3], None))
                self.work.append(idx[i])
        return loff, idx[0]

    def _run(self):
        retry = 0
        pend = self.work; self.work = []
        while pend:
            progress = False
            later = []
            while pend:
                bi = pend.pop(0)
                if len(self.fl.bbs) > self.max_blocks: raise Exception("flattening of %s exceeds %d blocks" % (self.fl.root, self.max_blocks))
                r = self._expand(bi)
                if r == "later": later.append(bi)
                elif r: progress = True
                if self.work:
                    pend[:0] = self.work; self.work = []
            if not progress: break
            pend = later

    # ----- definition chains -----
    def chase(self, o, depth=0):
        """the defining thing of an operand, through moves, borrows and re-borrows"""
        if depth > 60: return ("?",)
        if o[0] == "k":
            c = o[1]
            if "closure" in c: return ("closure", c["closure"], None)
            if "fn" in c: return ("fn", c["fn"])
            return ("const", c)
        p = o[1]
        proj = [e for e in p[1:] if e != "*"]
        l = p[0]
        if proj:
            d = self.chase(["c", [l]], depth + 1)
            # field of a known aggregate (closure upvars, tuples, Try payloads)
            if d[0] in ("agg", "closure") and len(proj) == 1 and isinstance(proj[0], list) and proj[0][0] == "f":
                rv = d[1] if d[0] == "agg" else d[2]
                if rv is not None:
                    i = proj[0][1]
                    if i < len(rv[5]): return self.chase(rv[5][i], depth + 1)
            return ("place", l, proj)
        ds = self.defs.get(l, [])
        if len(ds) != 1:
            ty = self.fl.locals[l]
            cid = self._closure_ty(ty)
            if cid: return ("closure", cid, None)
            if not ds and l <= self.fl.nargs: return ("param", l)
            return ("multi", l)
        d = ds[0]
        if d[0] == "st":
            rv = d[2]
            if rv[0] == "use": return self.chase(rv[1], depth + 1)
            if rv[0] == "ref": return self.chase(["c", rv[1]], depth + 1)
            if rv[0] == "cast": return self.chase(rv[2], depth + 1)
            if rv[0] == "agg":
                if rv[1] == "closure": return ("closure", rv[2], rv)
                return ("agg", rv, l)
            return ("rv", rv, l)
        if d[0] == "call":
            bb = self.fl.bbs[d[1]]
            if bb is None or bb["t"][0] != "call": return ("gone", l)
            t = bb["t"]
            if t[1][0] == "k" and "fn" in t[1][1]:
                f = t[1][1]["fn"]
                if TRANSPARENT.search(f["rp"]) and t[2]: return self.chase(t[2][0], depth + 1)
                return ("call", f, t[2], l, d[1])
            return ("multi", l)
        return ("multi", l)

    def _closure_ty(self, ty):
        m = re.search(r"\{closure@[^{}]*\}", ty)
        if m and re.match(r"^(&'?\w* ?(mut )?)*\{closure@[^{}]*\}$", ty): return self.closure_by_ty.get(m.group(0))
        return None

    # ----- emission helpers -----
    def blk(self, src, fr, s=None, t=None):
        i = self.fl.new_block(src, fr, s, t)
        for x in s or []:
            self._def(x[0][0], ("st", x[0], x[1]) if len(x[0]) == 1 else ("part", x[0], x[1]))
        if t and t[0] == "call":
            self._def(t[3][0], ("call", i) if len(t[3]) == 1 else ("part", t[3], None))
            self.work.append(i)
        return i

    def sett(self, i, t):
        self.fl.bbs[i]["t"] = t
        if t[0] == "call":
            self._def(t[3][0], ("call", i) if len(t[3]) == 1 else ("part", t[3], None))
            self.work.append(i)

    def undef_call(self, dest, bi):
        l = dest[0]
        if len(dest) == 1:
            ds = self.defs.get(l, [])
            if ("call", bi) in ds: ds.remove(("call", bi))

    def assign(self, bi, place, rv):
        b = self.fl.bbs[bi]
        b["s"].append([place, rv, b["src"]])
        self._def(place[0], ("st", place, rv) if len(place) == 1 else ("part", place, rv))

    def tmp(self, ty="?"): return self.fl.new_local(ty)

    def call_closure(self, clo, args, dest, target, src, fr):
        """block that applies closure operand `clo` to args"""
        t = ["call", ["k", {"t": "dyn", "dyn": True}], [clo] + args, dest, target]
        return self.blk(src, fr, None, t)

    def op_local(self, bi, o):
        """an operand as a fresh local assigned at the end of block bi"""
        l = self.tmp(self.fl.locals[o[1][0]] if o[0] in "cm" and len(o[1]) == 1 else "?")
        self.assign(bi, [l], ["use", o])
        return l

    def switch_variant(self, bi, l, adt, arms, otherwise=None):
        d = self.tmp("isize")
        self.assign(bi, [d], ["discr", [l], adt])
        un = self.blk(self.fl.bbs[bi]["src"], self.fl.bbs[bi]["fr"], None, ["unreachable"])
        self.fl.bbs[bi]["t"] = ["switch", ["c", [d]], "isize", arms, otherwise if otherwise is not None else un]

    # ----- expansion of one call -----
    def _expand(self, bi):
        fl = self.fl
        bb = fl.bbs[bi]
        if bb is None or bb["t"][0] != "call": return False
        t = bb["t"]
        func, args, dest, target = t[1], t[2], t[3], t[4]
        src, fr = bb["src"], bb["fr"]
        # calls of closures
        if func[0] != "k" or func[1].get("dyn"):
            if func[0] != "k":
                clo, cargs = func, args
            else: clo, cargs = args[0], args[1:]
            return self._apply(bi, clo, cargs, dest, target, src, fr)
        if "fn" not in func[1]: return False
        f = func[1]["fn"]; rp = f["rp"]
        if rp.startswith(PANICS):
            bb["t"] = ["panic", rp, args]; self.undef_call(dest, bi); return True
        if re.search(r"core::ops::function::Fn(Mut|Once)?::call(_mut|_once)?$", rp) or re.search(r"as core::ops::function::Fn(Mut|Once)?<.*>::call(_mut|_once)?$", rp):
            un = self._untuple(args[1])
            if un is None: return "later" if self.chase(args[1])[0] in ("gone",) else False
            return self._apply(bi, args[0], un, dest, target, src, fr)
        if f["local"] or rp.endswith("}") and f["rid"] in self.F.stubs:
            cid = f["rid"]
            st = self.F.stubs.get(cid)
            if st is None: return False
            if st.bk == "closure":
                un = self._untuple(args[1]) if len(args) == 2 else args[1:]
                if un is None: un = None
                d = self.chase(args[0])
                return self._inline(bi, cid, args[:1] + (un or []), dest, target, src, fr, closure=True) if un is not None else False
            if self.stop(cid, rp):
                # the crate's own conversion, named directly, reads like `.into()`
                if len(args) == 1 and cid in self.F.from_pair:
                    self._conv(bi, cid.split("::")[-1], *self.F.from_pair[cid]); return False
                # walking one of the crate's own iterators by hand reads like a chain of adapters on it
                if is_iter_method(rp) == "next" and rp.startswith("<"):
                    it = self._iter(args[0])
                    if it == "later": return "later"
                    self.undef_call(dest, bi)
                    bb["t"] = ["goto", self._next1(it if it is not None else ("base", args[0], bi), dest, target, src, fr)]
                    return True
                return False
            if self.F.impl_exp(cid).startswith("core::Clone"):
                self._transparent(bi, args, dest, target); return True
            if rp.endswith("::fmt") : return False
            return self._inline(bi, cid, args, dest, target, src, fr)
        # Into / TryInto resolved to the crate's own From / TryFrom
        m = re.search(r"(Into|TryInto)(<U>)?>?::(into|try_into)$", rp)
        if m or re.search(r"core::convert::(From|TryFrom)::(from|try_from)$", f["p"]):
            g = f["g"]
            if m: src_t, dst_t = (g[0], g[1]) if len(g) >= 2 else (None, None)
            else: src_t, dst_t = (g[1], g[0]) if len(g) >= 2 else (None, None)
            if src_t:
                cid = self.F.from_impls.get((norm_ty(src_t), norm_ty(dst_t)))
                if cid and not self.stop(cid, self.F.stubs[cid].p if cid in self.F.stubs else ""):
                    return self._inline(bi, cid, args, dest, target, src, fr)
                if norm_ty(src_t) == norm_ty(dst_t) and m and m.group(1) == "Into":
                    self._transparent(bi, args, dest, target); return True
                if m and m.group(1) == "TryInto" or m is None and "TryFrom" in f["p"]: self._conv(bi, "try_from", src_t, dst_t); return False
                self._conv(bi, "from", src_t, dst_t)
            return False
        if TRANSPARENT.search(rp):
            if self.mark_copies and re.search(r"Option::<&(mut )?T>::(copied|cloned)$", rp):
                # the moment of the copy stays visible
                x = self.op_local(bi, args[0]); r = self.tmp()
                self.undef_call(dest, bi)
                c = self.blk(src, fr, [[dest, some(["m", [r]]), src]], ["goto", target])
                a = self.blk(src, fr, None, ["call", FN("$clone"), [pay(x, 1, "Some")], [r], c])
                n = self.blk(src, fr, [[dest, none(), src]], ["goto", target])
                self.switch_variant(bi, x, OPT, [[0, n], [1, a]])
                return True
            self._transparent(bi, args, dest, target); return True
        r = self._model(bi, rp, f, args, dest, target, src, fr)
        return r

    def _conv(self, bi, what, a, b):
        t = self.fl.bbs[bi]["t"]
        if t[1][1]["fn"]["rp"].startswith("$"): return
        t[1] = FN("$%s<%s,%s>" % (what, norm_ty(a), norm_ty(b)))

    def _transparent(self, bi, args, dest, target):
        bb = self.fl.bbs[bi]
        self.undef_call(dest, bi)
        self.assign(bi, dest, ["use", args[0]])
        bb["t"] = ["goto", target] if target is not None else ["unreachable"]
        bb["clone"] = True

    def _untuple(self, o):
        d = self.chase(o)
        if d[0] == "agg" and d[1][1] == "tuple": return list(d[1][5])
        return None

    def _apply(self, bi, clo, args, dest, target, src, fr):
        d = self.chase(clo)
        if d[0] == "gone": return "later"
        if d[0] == "closure":
            if d[1] in self.F.stubs: return self._inline(bi, d[1], [clo] + args, dest, target, src, fr, closure=True)
            return False
        if d[0] == "fn":
            f = d[1]
            # tuple-variant / struct constructors used as functions
            self.undef_call(dest, bi)
            ctor = self.F.ctor(f["rid"])
            if ctor is None and f["rp"] in ("core::option::Option::Some", "core::result::Result::Ok", "core::result::Result::Err"):
                ctor = {"Some": (OPT, 1, "Some", ["0"]), "Ok": (RES, 0, "Ok", ["0"]), "Err": (RES, 1, "Err", ["0"])}[f["rp"].split("::")[-1]]
            if ctor is not None:
                self.assign(bi, dest, ["agg", "adt", ctor[0], ctor[1], ctor[2], args, ctor[3]])
                self.fl.bbs[bi]["t"] = ["goto", target]
                return True
            self.sett(bi, ["call", ["k", {"t": "fn", "fn": f}], args, dest, target])
            return True
        if d[0] == "call":
            rp = d[1]["rp"]
            t = self.fl.bbs[bi]["t"]
            if t[1][0] == "k" and "fn" in t[1][1] and t[1][1]["fn"]["rp"] == "$apply": return False
            self.fl.bbs[bi]["t"] = ["call", FN("$apply"), [clo] + args, dest, target]
            return False
        t = self.fl.bbs[bi]["t"]
        self.fl.bbs[bi]["t"] = ["call", FN("$apply"), [clo] + args, dest, target]
        return "later" if d[0] in ("multi",) and not t[1][1].get("fn", {}).get("rp") == "$apply" else False

    def _inline(self, bi, cid, args, dest, target, src, fr, closure=False):
        fl = self.fl
        chain = fl.frames[fr][2]
        if cid in chain or len(chain) > self.max_depth: return False
        b = self.F.body(cid)
        if len(args) != b.nargs:
            return False
        fl.inlined.add(cid)
        fl.frames.append((cid, src, chain + (cid,)))
        nf = len(fl.frames) - 1
        self.undef_call(dest, bi)
        first = len(fl.bbs)
        loff, entry = self._copy(b, nf)
        last = len(fl.bbs)
        fl.bbs[bi]["t"] = ["goto", entry]
        for i, a in enumerate(args): self.assign(bi, [loff + 1 + i], ["use", a])
        # returns
        ret = None
        for j in range(first, last):
            x = fl.bbs[j]
            if x is not None and x["fr"] == nf and x["t"][0] == "return":
                if target is None: x["t"] = ["unreachable"]; continue
                if ret is None:
                    ret = self.blk(x["src"], fr, [[dest, ["use", ["m", [loff]]], src]], ["goto", target])
                x["t"] = ["goto", ret]
        return True

    # ----- library models -----
    def _model(self, bi, rp, f, args, dest, target, src, fr):
        fl = self.fl
        bb = fl.bbs[bi]
        def begin():
            self.undef_call(dest, bi)
        def B(s=None, t=None): return self.blk(src, fr, s, t)
        def st(place, rv): return [place, rv, src]
        go = ["goto", target]
        # ---- Try ----
        if rp.endswith("as core::ops::try_trait::Try>::branch"):
            begin(); x = self.op_local(bi, args[0])
            if "Option" in rp.split(" as ")[0]:
                a = B([st(dest, ["agg", "adt", CF, 0, "Continue", [pay(x, 1, "Some")], ["0"]])], go)
                b = B([st(dest, ["agg", "adt", CF, 1, "Break", [["c", [x]]], ["0"]])], go)
                self.switch_variant(bi, x, OPT, [[0, b], [1, a]])
            else:
                a = B([st(dest, ["agg", "adt", CF, 0, "Continue", [pay(x, 0, "Ok")], ["0"]])], go)
                e = self.tmp()
                b = B([st([e], errr(pay(x, 1, "Err"))), st(dest, ["agg", "adt", CF, 1, "Break", [["m", [e]]], ["0"]])], go)
                self.switch_variant(bi, x, RES, [[0, a], [1, b]])
            return True
        if "FromResidual" in rp and rp.endswith("::from_residual"):
            begin()
            if rp.startswith("<core::option::Option"):
                self.assign(bi, dest, none())
            else:
                x = self.op_local(bi, args[0]); e = self.tmp()
                self.assign(bi, [e], ["use", pay(x, 1, "Err")])
                self.assign(bi, dest, errr(["c", [e]]))
            bb["t"] = go
            return True
        if rp.endswith("try_trait::Try>::from_output"):
            begin(); self.assign(bi, dest, (some if "Option" in rp else okr)(args[0])); bb["t"] = go; return True
        # ---- Option / Result ----
        m = re.match(r"core::(option::Option|result::Result)::<([^>]*|core::option::Option<T>(?:, E)?|core::result::Result<T, E>(?:, E)?)>::(\w+)$", rp)
        if m:
            isopt = m.group(1).startswith("option"); name = m.group(3)
            r = self._optres(bi, isopt, name, args, dest, target, src, fr, f)
            if r: return r
            return False
        if rp in ("core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some"):
            begin()
            n = B([st(dest, none())], go)
            if rp.endswith("then"):
                v = self.tmp(); s_ = B([st(dest, some(["m", [v]]))], go)
                c = self.call_closure(args[1], [], [v], s_, src, fr)
            else: c = B([st(dest, some(args[1]))], go)
            bb["t"] = ["switch", args[0], "bool", [[0, n]], c]
            return True
        if rp == "core::mem::replace":
            begin()
            l = self.op_local(bi, args[0])
            self.assign(bi, dest, ["use", ["c", [l, "*"]]])
            self.assign(bi, [l, "*"], ["use", args[1]])
            bb["t"] = go; return True
        if rp == "core::mem::take":
            begin()
            l = self.op_local(bi, args[0])
            self.assign(bi, dest, ["use", ["c", [l, "*"]]])
            d = self.tmp()
            nb = B([st([l, "*"], ["use", ["m", [d]]])], go)
            bb["t"] = ["call", FN("core::default::Default::default", f.get("g", ())), [], [d], nb]
            return True
        # ---- retain ----
        if re.search(r"::retain(_mut)?$", rp) and len(args) == 2:
            begin()
            d = self.chase(args[1])
            item = self.tmp("Option<elem>"); k = self.tmp("bool"); coll = self.op_local(bi, args[0])
            head = B(); un = self.tmp("()")
            body = B(); rem = B()
            x = self.tmp()
            fl.bbs[head]["t"] = ["call", FN("$iternext"), [["c", [coll]], C(bi, "site"), C(0, "retain")], [item], body]
            self._def(item, ("part", [item], None))
            self.assign(body, [x], ["use", pay(item, 1, "Some")])
            sw = B()
            nargs_c = 1
            if "hash::map" in rp or "btree::map" in rp:
                ca = [["c", [x, ["f", 0, "0", ""]]], ["c", [x, ["f", 1, "1", ""]]]]
            else: ca = [["c", [x]]]
            c = self.call_closure(args[1], ca, [k], sw, src, fr)
            self.switch_variant(body, item, OPT, [[0, target], [1, c]])
            fl.bbs[sw]["t"] = ["switch", ["c", [k]], "bool", [[0, rem]], head]
            self.sett(rem, ["call", FN("$retain_remove"), [["c", [coll]], ["c", [x]]], [un], head])
            self.assign(bi, dest, tup())
            bb["t"] = ["goto", head]
            return True
        # ---- iterators ----
        name = is_iter_method(rp)
        if name is None and rp.endswith("Extend<T>>::extend") or (name is None and re.search(r"as core::iter::traits::collect::Extend<.*>>::extend$", rp)): name = "extend"
        if name == "next":
            it = self._iter(args[0])
            if it == "later": return "later"
            if it is None: return False
            begin()
            d = self.chase(args[0])
            e = self._next1(it, dest, target, src, fr, d[4] if d[0] == "call" else None)
            bb["t"] = ["goto", e]
            return True
        if name in CONSUME:
            ai = 1 if name == "extend" else 0
            if name == "extend":
                it = self._iter(args[1]) or ("base", args[1], 0)
            else: it = self._iter(args[0])
            if it == "later": return "later"
            if it is None: return False
            return self._consume(bi, name, it, args, dest, target, src, fr, f)
        return False

    def _optres(self, bi, isopt, name, args, dest, target, src, fr, f):
        fl = self.fl; bb = fl.bbs[bi]
        def B(s=None, t=None): return self.blk(src, fr, s, t)
        def st(place, rv): return [place, rv, src]
        go = ["goto", target]
        adt = OPT if isopt else RES
        GI, GN, BI, BN = (1, "Some", 0, "None") if isopt else (0, "Ok", 1, "Err")
        mk = some if isopt else okr
        def bad(x):  # rvalue list that re-creates the bad variant
            return none() if isopt else errr(pay(x, 1, "Err"))
        def sw(x, good, badb): self.switch_variant(bi, x, adt, [[GI, good], [BI, badb]])
        names = {"map", "and_then", "map_or", "map_or_else", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "ok_or", "ok_or_else",
                 "filter", "or", "or_else", "is_some", "is_none", "is_ok", "is_err", "is_some_and", "is_none_or", "is_ok_and", "unwrap", "expect",
                 "map_err", "ok", "err", "take", "flatten", "and", "inspect", "inspect_err", "unwrap_err", "expect_err", "replace", "insert", "transpose",
                 "get_or_insert", "get_or_insert_with"}
        if name not in names: return False
        if name in ("unwrap_err", "expect_err", "insert"): return False
        self.undef_call(dest, bi)
        if name == "take" or name == "replace":
            l = self.op_local(bi, args[0])
            self.assign(bi, dest, ["use", ["c", [l, "*"]]])
            self.assign(bi, [l, "*"], none() if name == "take" else some(args[1]))
            bb["t"] = go; return True
        if name in ("get_or_insert", "get_or_insert_with"):
            l = self.op_local(bi, args[0]); v = self.tmp()
            give = st(dest, ["ref", [l, "*", ["v", 1, "Some"], ["f", 0, "0", ""]], True])
            have = B([give], go)
            put = B([st([l, "*"], some(["m", [v]])), give], go)
            if name == "get_or_insert": miss = B([st([v], ["use", args[1]])], ["goto", put])
            else: miss = self.call_closure(args[1], [], [v], put, src, fr)
            x = self.tmp()
            self.assign(bi, [x], ["use", ["c", [l, "*"]]])
            self.switch_variant(bi, x, OPT, [[0, miss], [1, have]]); return True
        x = self.op_local(bi, args[0])
        g = pay(x, GI, GN)
        if name in ("is_some", "is_none", "is_ok", "is_err"):
            yes = name in ("is_some", "is_ok")
            a = B([st(dest, ["use", C(1 if yes else 0, "bool")])], go)
            b = B([st(dest, ["use", C(0 if yes else 1, "bool")])], go)
            sw(x, a, b); return True
        if name in ("is_some_and", "is_ok_and", "is_none_or"):
            a = self.call_closure(args[1], [g], dest, target, src, fr)
            b = B([st(dest, ["use", C(1 if name == "is_none_or" else 0, "bool")])], go)
            sw(x, a, b); return True
        if name in ("unwrap", "expect"):
            a = B([st(dest, ["use", g])], go)
            b = B(None, ["panic", "core::%s::%s" % ("option::Option" if isopt else "result::Result", name), args])
            sw(x, a, b); return True
        if name == "map":
            v = self.tmp()
            a2 = B([st(dest, mk(["m", [v]]))], go)
            a = self.call_closure(args[1], [g], [v], a2, src, fr)
            b = B([st(dest, bad(x))], go)
            sw(x, a, b); return True
        if name == "and_then":
            a = self.call_closure(args[1], [g], dest, target, src, fr)
            b = B([st(dest, bad(x))], go)
            sw(x, a, b); return True
        if name == "and":
            a = B([st(dest, ["use", args[1]])], go); b = B([st(dest, bad(x))], go)
            sw(x, a, b); return True
        if name == "map_or":
            a = self.call_closure(args[2], [g], dest, target, src, fr)
            b = B([st(dest, ["use", args[1]])], go)
            sw(x, a, b); return True
        if name == "map_or_else":
            a = self.call_closure(args[2], [g], dest, target, src, fr)
            b = self.call_closure(args[1], [] if isopt else [pay(x, 1, "Err")], dest, target, src, fr)
            sw(x, a, b); return True
        if name == "unwrap_or":
            a = B([st(dest, ["use", g])], go); b = B([st(dest, ["use", args[1]])], go)
            sw(x, a, b); return True
        if name == "unwrap_or_else":
            a = B([st(dest, ["use", g])], go)
            b = self.call_closure(args[1], [] if isopt else [pay(x, 1, "Err")], dest, target, src, fr)
            sw(x, a, b); return True
        if name == "unwrap_or_default":
            a = B([st(dest, ["use", g])], go)
            b = B(None, ["call", FN("core::default::Default::default", f.get("g", ())), [], dest, target])
            sw(x, a, b); return True
        if name == "ok_or":
            a = B([st(dest, okr(g))], go); b = B([st(dest, errr(args[1]))], go)
            sw(x, a, b); return True
        if name == "ok_or_else":
            a = B([st(dest, okr(g))], go)
            e = self.tmp(); b2 = B([st(dest, errr(["m", [e]]))], go)
            b = self.call_closure(args[1], [], [e], b2, src, fr)
            sw(x, a, b); return True
        if name == "filter":
            k = self.tmp("bool")
            y = B([st(dest, ["use", ["c", [x]]])], go); n = B([st(dest, none())], go)
            s2 = B(None, ["switch", ["c", [k]], "bool", [[0, n]], y])
            a = self.call_closure(args[1], [g], [k], s2, src, fr)
            b = B([st(dest, none())], go)
            sw(x, a, b); return True
        if name == "or":
            a = B([st(dest, ["use", ["c", [x]]])], go); b = B([st(dest, ["use", args[1]])], go)
            sw(x, a, b); return True
        if name == "or_else":
            a = B([st(dest, ["use", ["c", [x]]])], go)
            b = self.call_closure(args[1], [] if isopt else [pay(x, 1, "Err")], dest, target, src, fr)
            sw(x, a, b); return True
        if name == "map_err":
            a = B([st(dest, okr(g))], go)
            e = self.tmp(); b2 = B([st(dest, errr(["m", [e]]))], go)
            b = self.call_closure(args[1], [pay(x, 1, "Err")], [e], b2, src, fr)
            sw(x, a, b); return True
        if name == "ok":
            a = B([st(dest, some(g))], go); b = B([st(dest, none())], go)
            bb["swallow"] = True
            sw(x, a, b); return True
        if name == "err":
            a = B([st(dest, none())], go); b = B([st(dest, some(pay(x, 1, "Err")))], go)
            sw(x, a, b); return True
        if name == "flatten":
            a = B([st(dest, ["use", g])], go); b = B([st(dest, bad(x))], go)
            sw(x, a, b); return True
        if name in ("inspect", "inspect_err"):
            v = self.tmp("()")
            on, off = (GI, BI) if name == "inspect" else (1, 0)
            y = B([st(dest, ["use", ["c", [x]]])], go)
            seen = self.call_closure(args[1], [pay(x, *((GI, GN) if name == "inspect" else (1, "Err")))], [v], y, src, fr)
            self.switch_variant(bi, x, adt, [[on, seen], [off, B([st(dest, ["use", ["c", [x]]])], go)]])
            return True
        if name == "transpose":
            i = self.tmp(); v = self.tmp()
            def keep(k, vi, vn, wrap):  # the inner payload, wrapped the other way round
                return B([st([v], k(pay(i, vi, vn))), st(dest, wrap(["m", [v]]))], go)
            a = B([st([i], ["use", g])], None)
            if isopt:
                self.switch_variant(a, i, RES, [[0, keep(some, 0, "Ok", okr)], [1, B([st(dest, errr(pay(i, 1, "Err")))], go)]])
                b = B([st([v], none()), st(dest, okr(["m", [v]]))], go)
            else:
                self.switch_variant(a, i, OPT, [[1, keep(okr, 1, "Some", some)], [0, B([st(dest, none())], go)]])
                b = B([st([v], bad(x)), st(dest, some(["m", [v]]))], go)
            sw(x, a, b); return True
        return False

    # ---- iterators ----
    def _iter(self, o, depth=0):
        """structure of an iterator operand: (adapter, inner, ...) or ('base', operand, site)"""
        if depth > 30: return None
        d = self.chase(o)
        if d[0] == "gone": return "later"
        if d[0] == "call":
            f, args, l, bi = d[1], d[2], d[3], d[4]
            rp = f["rp"]
            n = is_iter_method(rp)
            if n in ADAPT or re.search(r"(IntoIterator|IntoParallelIterator)(>)?::into(_par)?_iter$", rp) and n is None:
                k = ADAPT.get(n, None)
                if k is None:
                    inner = self._iter(args[0], depth + 1)
                    return inner if inner is not None else ("base", args[0], l)
                inner = self._iter(args[0], depth + 1)
                if inner == "later": return "later"
                if inner is None: inner = ("base", args[0], l)
                if k == "id" and n == "cloned" and self.mark_copies: return ("cloned", inner, None, l)
                if k == "id": return inner
                if k in ("zip", "chain"):
                    o2 = self._iter(args[1], depth + 1)
                    if o2 == "later": return "later"
                    return (k, inner, o2 or ("base", args[1], l), l)
                return (k, inner, args[1] if len(args) > 1 else None, l)
            if re.search(r"::(values|values_mut|into_values)$", rp) and "Value" not in rp: return ("field", ("base", args[0], l), 1)
            if re.search(r"::(keys|into_keys)$", rp): return ("field", ("base", args[0], l), 0)
            if ITER_BASE.search(rp) and args: 
                # iterating a by-value iterator
                return ("base", args[0], l)
            if re.search(r"::(chunks|chunks_exact|windows|split)$", rp): return ("base", ["c", [l]], l)
            return None
        if d[0] == "agg" and d[1][2].startswith("core::ops::range::Range"): return ("base", ["c", [d[2]]], d[2])
        if d[0] == "call0": return None
        return None

    def _next1(self, it, dest, target, src, fr, made=None):
        """emit dest = next(it); goto target, where it is not known whether it is the first time.  Returns the entry block."""
        e, again = self._next(it, dest, target, src, fr)
        if e != again and made is not None and self._over_option(it):
            # a mark tells the first time from the later ones
            k = self.tmp("bool")
            self.fl.bbs[made]["s"].append([[k], ["use", C(0, "bool")], self.fl.bbs[made]["src"]])
            one, two = (self.blk(src, fr, [[[k], ["use", C(1, "bool")], src]], ["goto", x]) for x in (e, again))
            return self.blk(src, fr, None, ["switch", ["c", [k]], "bool", [[0, one]], two])
        return e if e == again else self.blk(src, fr, None, ["nd", [e, again]])

    def _option(self, o):
        """the operand is an Option itself, or a borrow of one"""
        if o[0] not in ("c", "m") or [e for e in o[1][1:] if e != "*"]: return False
        t = re.sub(r"^(&('\w+ )?)+", "", str(self.fl.locals[o[1][0]]))
        return t.startswith("core::option::Option<")

    def _over_option(self, it):
        return isinstance(it, tuple) and (it[0] == "base" and self._option(it[1]) or any(self._over_option(x) for x in it[1:] if isinstance(x, tuple)))

    def _next(self, it, dest, target, src, fr):
        """emit dest = next(it); goto target.  Returns the block entered the first time and the one entered later."""
        fl = self.fl
        def B(s=None, t=None): return self.blk(src, fr, s, t)
        def st(place, rv): return [place, rv, src]
        go = ["goto", target]
        k = it[0]
        if k == "base" and self._option(it[1]):
            # at most one element
            w = self.tmp("core::option::Option<elem>")
            b = B([st([w], ["use", it[1] if it[1][0] == "k" else ["c", it[1][1]]])])
            a = B([st(dest, some(pay(w, 1, "Some")))], go)
            again = B([st(dest, none())], go)
            self.switch_variant(b, w, OPT, [[0, again], [1, a]])
            return b, again
        if k == "base":
            b = fl.new_block(src, fr)
            self._def(dest[0], ("part", dest, None))
            fl.bbs[b]["t"] = ["call", FN("$iternext"), [it[1], C(it[2], "site")], dest, target]
            return b, b
        if k == "take" and self.mark_copies and it[1][0] == "base":
            w = self.tmp(); b2 = B()
            fl.bbs[b2]["t"] = ["call", FN("$iternext"), [["c", [w]], C(it[1][2], "site")], dest, target]
            self._def(dest[0], ("part", dest, None)); self._def(w, ("part", [w], None))
            b = B(None, ["call", FN("$first_of"), [it[1][1], it[2]], [w], b2])
            return b, b
        x = self.tmp("Option<item>")
        disp = B()
        first, e = self._next(it[1], [x], disp, src, fr)
        v = pay(x, 1, "Some")
        end = B([st(dest, none())], go)
        if k == "field":
            a = B([st(dest, some(["c", [x, ["v", 1, "Some"], ["f", 0, "0", ""], ["f", it[2], str(it[2]), ""]]]))], go)
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]]); return first, e
        if k == "map":
            r = self.tmp(); a2 = B([st(dest, some(["m", [r]]))], go)
            a = self.call_closure(it[2], [v], [r], a2, src, fr)
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]]); return first, e
        if k == "cloned":
            r = self.tmp(); a2 = B([st(dest, some(["m", [r]]))], go)
            a = B(None, ["call", FN("$clone"), [v], [r], a2])
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]]); return first, e
        if k == "inspect":
            r = self.tmp(); a2 = B([st(dest, some(v))], go)
            a = self.call_closure(it[2], [v], [r], a2, src, fr)
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]]); return first, e
        if k == "filter":
            r = self.tmp("bool"); y = B([st(dest, some(v))], go)
            s2 = B(None, ["switch", ["c", [r]], "bool", [[0, e]], y])
            a = self.call_closure(it[2], [v], [r], s2, src, fr)
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]]); return first, e
        if k in ("take_while", "skip_while"):
            r = self.tmp("bool"); y = B([st(dest, some(v))], go)
            s2 = B(None, ["switch", ["c", [r]], "bool", [[0, end if k == "take_while" else y]], y if k == "take_while" else e])
            a = self.call_closure(it[2], [v], [r], s2, src, fr)
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]]); return first, e
        if k == "filter_map" or k == "map_while":
            r = self.tmp("Option")
            s2 = B()
            y = B([st(dest, some(pay(r, 1, "Some")))], go)
            self.switch_variant(s2, r, OPT, [[0, e if k == "filter_map" else end], [1, y]])
            a = self.call_closure(it[2], [v], [r], s2, src, fr)
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]]); return first, e
        if k in ("flat_map", "flatten"):
            # the inner collection is walked as a nested loop: modelled as an unordered re-entry
            r = self.tmp()
            inner = B(); 
            s2 = B(None, ["goto", inner])
            y = self.tmp("Option<item>")
            d2 = B()
            fl.bbs[inner]["t"] = ["call", FN("$iternext"), [["c", [r]], C(it[3], "site")], [y], d2]
            self._def(y, ("part", [y], None))
            got = B([st(dest, some(pay(y, 1, "Some")))], go)
            self.switch_variant(d2, y, OPT, [[0, e], [1, got]])
            if k == "flat_map": a = self.call_closure(it[2], [v], [r], s2, src, fr)
            else: a = B([st([r], ["use", v])], ["goto", inner])
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]])
            # entering again continues the inner walk
            return first, inner
        if k == "enumerate":
            i = self.tmp("usize"); tp = self.tmp()
            a = B([st([i], ["iterindex", self._base_site(it)]), st([tp], tup(["c", [i]], v)), st(dest, some(["m", [tp]]))], go)
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]]); return first, e
        if k == "zip":
            y = self.tmp("Option<item>"); d2 = B(); tp = self.tmp()
            a = self._next1(it[2], [y], d2, src, fr)
            got = B([st([tp], tup(v, pay(y, 1, "Some"))), st(dest, some(["m", [tp]]))], go)
            self.switch_variant(d2, y, OPT, [[0, end], [1, got]])
            self.switch_variant(disp, x, OPT, [[0, end], [1, a]]); return first, e
        if k == "chain":
            got = B([st(dest, some(v))], go)
            n2, again = self._next(it[2], dest, target, src, fr)
            self.switch_variant(disp, x, OPT, [[0, n2], [1, got]])
            return first, e if n2 == again else B(None, ["nd", [e, again]])
        if k in ("take", "skip", "rev", "step_by"):
            # a bound on the walk: kept as a marker on the item
            got = B(None, None)
            w = self.tmp()
            g2 = B([st(dest, some(v))], go)
            fl.bbs[got]["t"] = ["call", FN("$iter_" + k), [it[2]] if it[2] else [], [w], g2]
            self._def(w, ("part", [w], None))
            if k == "take":
                # may also end here
                nd = B(None, ["nd", [end, got]])
                self.switch_variant(disp, x, OPT, [[0, end], [1, nd]]); return first, e
            self.switch_variant(disp, x, OPT, [[0, end], [1, got]]); return first, e
        raise AssertionError(k)

    def _base_site(self, it):
        while it[0] != "base": it = it[1]
        return it[2]

    def _consume(self, bi, name, it, args, dest, target, src, fr, f):
        fl = self.fl; bb = fl.bbs[bi]
        def B(s=None, t=None): return self.blk(src, fr, s, t)
        def st(place, rv): return [place, rv, src]
        go = ["goto", target]
        name = {"find_first": "find", "find_any": "find", "position_first": "position", "position_any": "position"}.get(name, name)
        if name not in ("for_each", "collect", "any", "all", "find", "find_map", "position", "count", "fold", "sum", "extend", "last", "try_for_each"):
            return False
        ty = fl.locals[dest[0]] if len(dest) == 1 else "?"
        self.undef_call(dest, bi)
        x = self.tmp("Option<item>"); disp = B()
        first, head = self._next(it, [x], disp, src, fr)
        v = pay(x, 1, "Some")
        if name == "for_each":
            u = self.tmp("()")
            a = self.call_closure(args[1], [v], [u], head, src, fr)
            self.assign(bi, dest, tup()); bb["t"] = ["goto", first]
            self.switch_variant(disp, x, OPT, [[0, target], [1, a]]); return True
        if name == "try_for_each":
            u = self.tmp(); s2 = B()
            a = self.call_closure(args[1], [v], [u], s2, src, fr)
            un = self.tmp(); dn = B([st([un], tup()), st(dest, okr(["c", [un]]))], go)
            er = B([st(dest, errr(pay(u, 1, "Err")))], go)
            self.switch_variant(s2, u, RES, [[0, head], [1, er]])
            bb["t"] = ["goto", first]
            self.switch_variant(disp, x, OPT, [[0, dn], [1, a]]); return True
        if name == "extend":
            u = self.tmp("()"); l = self.op_local(bi, args[0])
            a = B(None, ["call", FN("alloc::vec::Vec::<T, A>::push"), [["c", [l]], v], [u], head])
            self.assign(bi, dest, tup()); bb["t"] = ["goto", first]
            self.switch_variant(disp, x, OPT, [[0, target], [1, a]]); return True
        if name == "collect":
            g = (f["g"] or ["?"])[-1] if len(f["g"]) > 1 else ty
            acc = self.tmp(g); u = self.tmp("()"); r = self.tmp("&mut " + g)
            inres = re.match(r"core::(result::Result|option::Option)<", g)
            elem_first = "HashMap" in g
            pushn = "std::collections::hash::map::HashMap::<K, V, S, A>::insert" if "HashMap" in g else "alloc::vec::Vec::<T, A>::push"
            bb["t"] = None
            st0 = B(None, ["goto", first])
            bb["t"] = ["call", FN("$new_collection"), [], [acc], st0]
            self._def(acc, ("part", [acc], None))
            pb = B([st([r], ["ref", [acc], True])])
            if inres:
                w = self.op_local(disp, ["c", [x]]) if False else None
                y = self.tmp()
                s2 = B([st([y], ["use", v])])
                isr = inres.group(1).startswith("result")
                self.sett(pb, ["call", FN(pushn), [["m", [r]], pay(y, 0 if isr else 1, "Ok" if isr else "Some")], [u], head])
                er = B([st(dest, errr(pay(y, 1, "Err")) if isr else none())], go)
                self.switch_variant(s2, y, RES if isr else OPT, [[0, pb], [1, er]] if isr else [[1, pb], [0, er]])
                dn = B([st(dest, (okr if isr else some)(["m", [acc]]))], go)
                self.switch_variant(disp, x, OPT, [[0, dn], [1, s2]]); return True
            if "HashMap" in g:
                self.sett(pb, ["call", FN(pushn), [["m", [r]], ["c", [x, ["v", 1, "Some"], ["f", 0, "0", ""], ["f", 0, "0", ""]]], ["c", [x, ["v", 1, "Some"], ["f", 0, "0", ""], ["f", 1, "1", ""]]]], [u], head])
            else: self.sett(pb, ["call", FN(pushn), [["m", [r]], v], [u], head])
            dn = B([st(dest, ["use", ["m", [acc]]])], go)
            self.switch_variant(disp, x, OPT, [[0, dn], [1, pb]]); return True
        if name in ("any", "all"):
            k = self.tmp("bool")
            y = B([st(dest, ["use", C(1, "bool")])], go); n = B([st(dest, ["use", C(0, "bool")])], go)
            s2 = B(None, ["switch", ["c", [k]], "bool", [[0, head if name == "any" else n]], y if name == "any" else head])
            a = self.call_closure(args[1], [v], [k], s2, src, fr)
            bb["t"] = ["goto", first]
            self.switch_variant(disp, x, OPT, [[0, n if name == "any" else y], [1, a]]); return True
        if name in ("find", "position"):
            k = self.tmp("bool")
            if name == "find": y = B([st(dest, some(v))], go)
            else:
                i = self.tmp("usize"); y = B([st([i], ["iterindex", self._base_site(it)]), st(dest, some(["c", [i]]))], go)
            n = B([st(dest, none())], go)
            s2 = B(None, ["switch", ["c", [k]], "bool", [[0, head]], y])
            a = self.call_closure(args[1], [v], [k], s2, src, fr)
            bb["t"] = ["goto", first]
            self.switch_variant(disp, x, OPT, [[0, n], [1, a]]); return True
        if name == "find_map":
            k = self.tmp("Option")
            y = B([st(dest, ["use", ["c", [k]]])], go); n = B([st(dest, none())], go)
            s2 = B()
            self.switch_variant(s2, k, OPT, [[0, head], [1, y]])
            a = self.call_closure(args[1], [v], [k], s2, src, fr)
            bb["t"] = ["goto", first]
            self.switch_variant(disp, x, OPT, [[0, n], [1, a]]); return True
        if name in ("count", "sum", "last", "fold"):
            acc = self.tmp("acc")
            if name == "fold": self.assign(bi, [acc], ["use", args[1]])
            elif name == "last": self.assign(bi, [acc], none())
            else: self.assign(bi, [acc], ["use", C(0)])
            bb["t"] = ["goto", first]
            if name == "fold":
                a = self.call_closure(args[2], [["c", [acc]], v], [acc], head, src, fr)
            elif name == "last": a = B([st([acc], ["use", ["c", [x]]])], ["goto", head])
            else: a = B([st([acc], ["bin", "Add", ["c", [acc]], C(1) if name == "count" else v])], ["goto", head])
            dn = B([st(dest, ["use", ["c", [acc]]])], go)
            self.switch_variant(disp, x, OPT, [[0, dn], [1, a]]); return True
        return False
