"""D01..D09: the decoders."""
import json, os, re
from ctx import Ctx, RULES, Missing, SPEC
import wire, grammar
from wire import spec, pmap, layout, gram, NUM
from vals import *
from guard import Guards

INTPRIM = NUM


def names_of(ctx):
    return sorted(spec()["decoders"])


def where(F, pretty):
    ids = F.by_pretty.get(pretty)
    if not ids: return ""
    i = ids[0] if isinstance(ids, list) else ids
    s = F.stubs.get(getattr(i, "id", i))
    return "%s %s" % (getattr(s, "file", ""), pretty)


def diff(want, have):
    w, h = set(map(strip, want)), set(map(strip, have))
    out = ["expected but absent: " + x for x in sorted(w - h)[:4]] + ["present but not expected: " + x for x in sorted(h - w)[:4]]
    return "; ".join(out) or "same elements in a different order: expected %s, found %s" % (" ".join(want)[:300], " ".join(have)[:300])


def strip(l): return re.sub(r"^\d+ |\s\d+$", "", l)


def layouts(ctx, kind):
    F = ctx.F; names = names_of(ctx); S = spec()["decoders"]
    ctx.notes_spec = True
    have = set(wire.all_decoders(F))
    for n in names:
        if n not in F.by_pretty: ctx.bad(kind, n, "decoder %s is not there any more" % n)
    new = sorted(x for x in have - set(names) if grammar.TYPE_PARSE.match(x))
    for n, r, err in pmap(F, names, layout, [n for n in names if n in F.by_pretty]):
        ctx.functions.add(n)
        yield n, S[n], r, err


# ---------------------------------------------------------------- D01
RULES["D01"] = ("for each decoder the regular language of its reads (primitive or nested decoder called, constant operands, tests on values read, "
                "repetition counts) on paths to success, as minimal automaton, equals the transcribed protocol layout (spec/wire.json); "
                "the integer primitives consume what they are asked for: the remaining width starts at the requested one, falls by the amount read, and success needs it to be zero")


def d01(ctx):
    for n, want, r, err in layouts(ctx, "layout"):
        w = where(ctx.F, n)
        if err: ctx.bad("layout", n, "cannot be analysed: " + err, w); continue
        ctx.count("reads", r["reads"])
        if n in NUM and n != "parse_vlq_int":
            # how these split their bits over bytes is arithmetic (N01); that they read bits only, and how many, is decided below
            ctx.check(set(r["coarse"]) == {"$apply" if "nom::bits::complete::take::{closure" in x else x for x in want["coarse"]}, "layout", n, "%s reads by %s instead of %s" % (n, r["coarse"], want["coarse"]), w); continue
        ctx.check(r["wire"] == want["wire"], "layout", n, "%s consumes a different layout: %s" % (n, diff(want["wire"], r["wire"])), w)
    F = ctx.F
    for n in ("bit_packed_decoder::take_n_bits_into_i64", "bit_packed_decoder::take_bit_array"):
        g = gram(F, names_of(ctx), n)
        measure(ctx, g, n)
    ctx.atleast("layout", 349, "all decoders of both protocols")


def measure(ctx, g, n):
    """the bits still to read start at the requested count, fall by what is read, and are used up at success"""
    v = g.v; G = Guards(v)
    sized = []
    for b, e in g.reads.items():
        for x in grammar.flat_args(e[2]):
            if not g.curlike(x) and x.op != "agg" and not is_const(x): sized.append((b, e, x))
    rem = None
    for t, ops in v.phis.items():
        subs = [o for o in ops.values() if o.op == "bin" and o.a[0] == "Sub" and o.a[1] is t]
        init = [o for o in ops.values() if o.op == "param"]
        if subs and init and len(subs) + len(init) == len(ops): rem = (t, subs); break
    if not ctx.check(rem is not None, "measure", n, "%s keeps no count of the bits still to read that starts at the requested width and falls with each read" % n): return
    t, subs = rem
    amounts = {x for _, _, x in sized}
    for s in subs:
        ctx.check(s.a[2] in amounts, "measure", n + " step", "%s: the remaining width falls by %s, which is not the width handed to the read" % (n, show(s.a[2])))
    for b in g.okrets:
        zero = G.b.OR(G.b.any([G.formula(bin_("Eq", s, const(0)), 1) for s in subs]), G.formula(bin_("Eq", t, const(0)), 1))
        zero = G.b.OR(zero, G.b.any([G.formula(s, 0) for s in subs] + [G.formula(t, 0)]))
        ctx.check(G.holds(b, zero), "measure", n + " exit", "%s can succeed with bits left to read: returns under %s" % (n, G.show(b)[:300]))


# ---------------------------------------------------------------- D02
RULES["D02"] = ("for each decoder every value read flows, through value-preserving steps only, to exactly the field or alternative the protocol assigns to that read "
                "(automaton of reads labelled with destination fields and conversions, and the constants each field can hold, equal spec/wire.json)")


def d02(ctx):
    for n, want, r, err in layouts(ctx, "fields"):
        if n in NUM: continue
        w = where(ctx.F, n)
        if err: ctx.bad("fields", n, "cannot be analysed: " + err, w); continue
        ctx.count("reads", r["reads"])
        ctx.check(r["fields"] == want["fields"], "fields", n, "%s assigns values differently: %s" % (n, diff(want["fields"], r["fields"])), w)
        bad = {k: (want["consts"].get(k), r["consts"].get(k)) for k in set(want["consts"]) | set(r["consts"]) if want["consts"].get(k) != r["consts"].get(k)}
        ctx.check(not bad, "constants", n, "%s: field may hold constants other than the protocol's: %s" % (n, "; ".join("%s expected %s found %s" % (k, a, b) for k, (a, b) in list(bad.items())[:4])), w)
    ctx.atleast("fields", 345, "all decoders of both protocols")


# ---------------------------------------------------------------- D03
RULES["D03"] = ("in each tagged record every slot is filled only where the path condition implies it is still empty, success implies that every slot whose value is returned is filled, "
                "and every test on a decoded tag, choice or enumeration number reaches success only through the numbers the protocol defines; markers are matched by the tag parsers")

OPTIONAL = {("versions::protocol87702::byte_aligned::GameSToonNameDetails::parse", "m_name")}


def slots(F, names, n):
    g = gram(F, names, n)
    v = g.v; G = Guards(v)
    out = []
    tagged = any(re.search(r"versioned_decoder::validate_struct_tag$", e[1]) for e in g.reads.values()) and n.find("::byte_aligned::") > 0
    if tagged:
        for b, t in g.okrets.items():
            for c, val, _ in g.okvals(t):
                for x in g.alts(val):
                    if x.op != "agg": out.append((False, "result", "%s returns a record that is not built from its fields" % n)); continue
                    adt = F.adts.get(x.a[0]); ftys = {f[0]: f[1] for f in adt["variants"][0]["fields"]} if adt else {}
                    for f, ft in zip(x.a[3], x.a[4]): out.extend(slot(g, G, n, b, f, ft, ftys.get(f, "")))
    # numbers that are not defined
    E, s0, acc = g.nfa(False)
    good = grammar.coreach(E, acc)
    for b, l in E.items():
        if b not in good: continue
        for lab, y in l:
            m = lab and re.match(r"<(.*)> != \{(.*)\}$", lab)
            if m and y in good and not re.search(r"parse_bool\(\)|number::complete::u8\(\)", m.group(1)):
                out.append((False, "undefined", "%s accepts numbers outside {%s} for %s" % (n, m.group(2), m.group(1))))
            elif lab and re.match(r"<(.*)> == ", lab): out.append((True, "defined", n))
    return out


def slot(g, G, n, b, f, ft, fty):
    v = g.v; opt = False
    if fty.startswith("core::option::Option") and ft.op == "phi": S = ft; opt = True; yield (True, "optional " + f, n)
    elif ft.op == "fld" and ft.a[1] == "0" and ft.a[0].op == "var" and ft.a[0].a[1] == "Some" and ft.a[0].a[0].op == "phi":
        S = ft.a[0].a[0]
    else:
        S = next((x for x in subterms_cached(ft) if x.op == "phi"), None)
        opt = True
        if (n, f) not in OPTIONAL:
            yield (False, "required " + f, "%s: field %s is not the content of its slot but %s" % (n, f, show(ft)[:200])); return
        # the slot is the choice inside
        c = [x for x in closure(v, ft) if x.op == "phi" and any(o.op == "agg" and o.a[2] == "Some" for o in v.phis.get(x, {}).values())]
        if not c: yield (False, "optional " + f, "%s: no slot for %s" % (n, f)); return
        S = c[0]
    if not opt:
        yield (G.holds(b, G.formula(mk("discr", S), 1)), "required " + f, "%s succeeds without field %s: returns under %s" % (n, f, G.show(b)[:200]))
    for p, x, o in fills(g, S, set()):
        if o.op == "agg" and o.a[2] == "None": continue
        yield (G.implied(G.phi_edge(p, x), G.formula(mk("discr", S), 0)), "once " + f, "%s: field %s can be overwritten by a repeated tag (filled under %s)" % (n, f, G.b.show(G.phi_edge(p, x))[:200]))


def closure(v, t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        for y in subterms_cached(x):
            if y in seen: continue
            seen.add(y)
            if y.op == "phi": st.extend(v.phis.get(y, {}).values())
    return seen


def fills(g, S, seen, top=None):
    """(edge source, edge target, value) for every value put into the slot"""
    top = top or S
    if S in seen: return
    seen.add(S)
    for p, o in g.v.phis.get(S, {}).items():
        if o is top: continue
        if o.op == "phi": yield from fills(g, o, seen, top)
        else: yield p, S.a[0], o


def d03(ctx):
    F = ctx.F; names = names_of(ctx)
    types = [n for n in names if grammar.TYPE_PARSE.match(n)]
    for n in types:
        if n not in F.by_pretty: ctx.bad("record", n, "decoder %s is not there any more" % n)
    for n, r, err in pmap(F, names, slots, [n for n in types if n in F.by_pretty]):
        ctx.functions.add(n)
        if err: ctx.bad("record", n, "cannot be analysed: " + err, where(F, n)); continue
        for ok, key, msg in r: ctx.check(ok, key.split()[0], n + " " + key, msg, where(F, n))
    S = spec()["decoders"]
    for n in names:
        if re.match(r"versioned_decoder::validate_\w+$", n) and n in F.by_pretty:
            r = layout(F, names, n); ctx.functions.add(n)
            ctx.check(r["wire"] == S[n]["wire"], "marker", n, "%s no longer matches its marker: %s" % (n, diff(S[n]["wire"], r["wire"])), where(F, n))
    ctx.atleast("required", 90, "fields of tagged records")
    ctx.atleast("once", 90, "slots of tagged records")
    ctx.atleast("defined", 500, "defined tag, choice and enumeration numbers")
    ctx.atleast("marker", 9, "marker readers")




# ---------------------------------------------------------------- D04
RULES["D04"] = ("greatest fixpoint of 'these values denote the current position': every read starts at the current position, its remainder is the new one (failed reads and look-ahead leave it), "
                "joins keep only values that are current on every incoming path, and every successful return hands back a current position")

LOOKAHEAD = re.compile(r"::rtake_n_bits$|::peek(::|$)")
READERS2 = re.compile(r"^cache_handles::(document_header::DocumentHeader|map_info::MapInfo|t3_height_map::T3HeightMap)::parse$")
STREAMS = re.compile(r"::read_(tracker_)?events$")


def canon(t):
    if t.op == "agg" and t.a[0] == "tuple" and len(t.a[4]) == 2:
        x, y = t.a[4]
        if x.op == "fld" and y.op == "fld" and x.a[0] is y.a[0] and (x.a[1], y.a[1]) == ("0", "1"): return x.a[0]
    return t


def translate(v, t, B, p):
    """t as seen before the edge p -> B"""
    if t.op == "phi" and t.a[0] == B: return canon(v.phis[t].get(p, t))
    if t.op == "agg" and t.a[0] == "tuple": return canon(agg_like(t, [translate(v, x, B, p) for x in t.a[4]]))
    if t.op == "fld": return canon(fld(translate(v, t.a[0], B, p), t.a[1]))
    return t


def agg_like(t, xs): return mk("agg", *t.a[:4], tuple(xs))


def curarg(g, e):
    for x in grammar.flat_args(e[2]):
        if g.curlike(x): return canon(x)
    return None


def positions(g, roots=()):
    """[(ok, key, message)]: reads chain"""
    v = g.v; fl = g.fl; out = []
    root = [mk("param", i, fl.names.get(i, "")) for i in range(1, fl.nargs + 1) if grammar.CUR_RE.match(fl.locals[i])]
    root = set(root) | set(roots)
    outcur = {b: fld(fld(var(e[3], "Ok"), "0"), "0") for b, e in g.reads.items()}
    # values that may be positions
    U = set(root) | set(outcur.values())
    todo = [curarg(g, e) for e in g.reads.values()]
    rets = []
    for b, t in g.okrets.items():
        for pth, c in retcur(g, b, t): rets.append((pth, c)); todo.append(c)
    todo = [x for x in todo if x is not None]
    while todo:
        x = todo.pop()
        if x in U: continue
        U.add(x)
        for B in {s.a[0] for s in subterms_cached(x) if s.op == "phi"}:
            for p in v.preds[B]:
                y = translate(v, x, B, p)
                if y not in U: todo.append(y)
    FULL = frozenset(U)
    IN = {b: FULL for b in v.rpo}; IN[v.rpo[0]] = frozenset(root)
    def after(b, s):
        st = IN[b]
        if b in g.reads:
            if LOOKAHEAD.search(g.reads[b][1]): return st
            return frozenset([outcur[b]])
        return st
    # a failed read leaves the position where it was
    failed = {}
    for b in v.rpo:
        t = fl.bbs[b]["t"]
        if t[0] != "switch": continue
        c = next((e[1] for e in reversed(v.ev[b]) if e[0] == "switch"), None)
        if c is not None and c.op == "discr" and c.a[0] in g.rterm:
            rb = next(x for x, e in g.reads.items() if e[3] is c.a[0])
            for val, tgt in t[3]:
                if val == 1: failed[(b, tgt)] = rb
            if 1 not in [x for x, _ in t[3]]: failed[(b, t[4])] = rb
    changed = True; n = 0
    while changed:
        changed = False; n += 1
        if n > 500: raise Exception("no fixpoint")
        for B in v.rpo:
            if B == v.rpo[0]: continue
            s = None
            for p in v.preds[B]:
                sp = IN[failed[(p, B)]] if (p, B) in failed else after(p, B)
                mine = frozenset(u for u in FULL if translate(v, u, B, p) in sp)
                s = mine if s is None else s & mine
            s = s if s is not None else FULL
            if s != IN[B]: IN[B] = s; changed = True
    for b, e in g.reads.items():
        c = curarg(g, e)
        ok = c in IN[b]
        out.append((ok, "read", "%s: %s reads at %s, which is not the current position (%s)" % (g.stub.p, e[1], show(c)[:160], ", ".join(show(x)[:120] for x in list(IN[b])[:2]) or "none")))
    for (p, B), c in rets:
        st = IN[B] if p is None else after(p, B)
        if p is None and B in g.reads: st = after(B, None)
        out.append((c in st, "remainder", "%s hands back %s as the remainder, which is not the current position (%s)" % (g.stub.p, show(c)[:160], ", ".join(show(x)[:120] for x in list(st)[:2]) or "none")))
    return out


def retcur(g, b, t):
    """((edge source or None, block), position handed back)"""
    v = g.v
    def go(p, B, x, seen):
        if x.op == "phi" and x.a[0] is not None:
            if x in seen: return
            seen = seen | {x}
            for q, o in v.phis.get(x, {}).items(): yield from go(q, x.a[0], o, seen)
        elif x in g.rterm:
            yield (p, B), fld(fld(var(x, "Ok"), "0"), "0")
        elif is_const(discr_(x)):
            if discr_(x).a[0] == 0:
                c = fld(fld(x, "0"), "0")
                yield (p, B), canon(c)
        else: yield (p, B), x
    yield from go(None, b, t, frozenset())


def chain(F, names, n):
    g = gram(F, names, n)
    return positions(g)


def d04(ctx):
    F = ctx.F; names = names_of(ctx)
    todo = [n for n in names if n != "bit_packed_decoder::rtake_n_bits"] + sorted(s.p for s in F.stubs.values() if s.bk == "fn" and READERS2.match(s.p))
    for n in todo:
        if n not in F.by_pretty: ctx.bad("read", n, "decoder %s is not there any more" % n)
    for n, r, err in pmap(F, names, chain, [n for n in todo if n in F.by_pretty]):
        ctx.functions.add(n)
        if err: ctx.bad("read", n, "cannot be analysed: " + err, where(F, n)); continue
        for ok, key, msg in r: ctx.check(ok, key, n + " " + key, msg, where(F, n))
    ctx.atleast("read", 1250, "reads of all decoders")
    ctx.atleast("remainder", 300, "successful returns")


# ---------------------------------------------------------------- D05
RULES["D05"] = ("in every function and stored closure of the library, for every call that yields a Result: no path from the edge on which it failed (or from the call, if the outcome is never looked at) "
                "reaches a return whose value is not an error; documented skips are the only exceptions (spec/skips.json)")

SKIPFILES = re.compile(r"^src/generator/|/tests?\.rs$")
RESTY = re.compile(r"^(core::result::)?Result<")


def scope(F):
    """functions and closures the rule is applied to"""
    out = []
    for s in F.stubs.values():
        if s.bk not in ("fn", "closure") or SKIPFILES.search(s.file): continue
        if s.exp and re.search(r"Serialize|Deserialize|Arrow|derive|Debug|Clone|PartialEq", s.exp): continue
        if F.impl_exp(s.id): continue
        par = s
        while par.bk == "closure" and par.parent in F.stubs: par = F.stubs[par.parent]
        if F.impl_exp(par.id) or par.exp and re.search(r"derive|Serialize|Deserialize|Arrow", par.exp): continue
        out.append(s)
    return out


def base_functions():
    """the functions of the library whose roles were confirmed by hand; anything else is seen as part of its callers"""
    global _BASE
    if _BASE is None: _BASE = set(json.load(open(os.path.join(SPEC, "functions.json"))))
    return _BASE


_BASE = None


def unary(F, names, sid):
    """flattened value analysis of one function: closures and unknown helpers expanded, known functions left as calls"""
    from flat import Flattener
    from thread import thread
    base = base_functions()
    def stop(i, p):
        s = F.stubs.get(i)
        return s is None or p in base or bool(s.exp) or bool(F.impl_exp(i))
    fl = Flattener(F, stop=stop, max_blocks=30000).flatten(sid)
    return fl, thread(F, fl, grow=3.0)


def iserr(t): 
    d = discr_(t)
    return is_const(d) and d.a[0] == 1


def nonerr_edges(v, fl, isres, skip=frozenset()):
    """{edge: set of returned values} from which a return that is not an error can be reached"""
    seen = {}
    todo = []
    for b in v.rpo:
        if fl.bbs[b]["t"][0] != "return": continue
        t = next((e[1] for e in v.ev[b] if e[0] == "return"), None)
        todo.append((b, t))
    while todo:
        b, t = todo.pop()
        if t is not None and isres and iserr(t): continue
        if t in seen.setdefault(b, set()): continue
        seen[b].add(t)
        for p in v.preds[b]:
            if (p, b) in skip: continue
            todo.append((p, translate(v, t, b, p) if t is not None else None))
    return seen


def comes_back(v, x, b, skip):
    """b can be reached from x without the given edges"""
    succ = {}
    for y in v.rpo:
        for p in v.preds[y]: succ.setdefault(p, []).append(y)
    seen, st = {x}, [x]
    while st:
        y = st.pop()
        if y == b: return True
        for z in succ.get(y, ()):
            if (y, z) not in skip and z not in seen: seen.add(z); st.append(z)
    return False


def swallowed(F, names, sid):
    """[(what yields the Result, what is wrong or None, error variants concerned)]"""
    fl, v = unary(F, names, sid)
    return with_results(F, sid, fl, v)[0], sorted(fl.inlined)


def with_results(F, sid, fl, v):
    """the same, with the Results themselves"""
    isres = bool(RESTY.match(fl.locals[0]))
    calls = []
    for b in v.rpo:
        t = fl.bbs[b]["t"]
        if t[0] != "call" or len(t[3]) != 1 or not RESTY.match(fl.locals[t[3][0]]): continue
        ev = [e for e in v.ev[b] if e[0] == "call"][-1]
        if NOERR.search(fl.locals[t[3][0]].split(",")[-1]): continue
        calls.append((ev[1], ev[3], b))
    have = {r for _, r, _ in calls}
    tests = {}; variants = {}; results = set()
    for b in v.rpo:
        for e in v.ev[b]:
            for x in e[1:]:
                for y in ([x] if isinstance(x, T) else x if isinstance(x, tuple) else ()):
                    if isinstance(y, T):
                        for z in subterms_cached(y):
                            if z.op == "var" and z.a[1] in ("Ok", "Err"): results.add(z.a[0])
        t = fl.bbs[b]["t"]
        if t[0] != "switch": continue
        c = next((e[1] for e in reversed(v.ev[b]) if e[0] == "switch"), None)
        if c is None or c.op != "discr": continue
        x = c.a[0]
        tests.setdefault(x, []).append((b, t))
        if x.op == "fld" and x.a[1] == "0" and x.a[0].op == "var" and x.a[0].a[1] == "Err": variants.setdefault(x.a[0].a[0], []).append((b, t))
    # values of type Result that are not made by a call here: elements of a collection, parameters, stored fields
    for x in tests:
        if x in results and x not in have and x.op in ("elem", "param", "fld", "at"): calls.append((("element of " if x.op == "elem" else "") + origin_of(x), x, None))
    if not calls: return [], []
    alias = {}
    for ph in v.phis:
        todo, seen = [ph], set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x in have: alias.setdefault(x, set()).add(ph)
            todo += list(v.phis.get(x, {}).values())
    live = nonerr_edges(v, fl, isres)
    used = uses(v, fl)
    out = []; rs = []
    for name, R, b in calls:
        same = {R} | alias.get(R, set())
        bad = None; errs = set(); vs = set()
        for r in same:
            for tb, t in tests.get(r, []):
                for val, tgt in t[3]:
                    if val == 1: errs.add((tb, tgt))
                if 1 not in [x for x, _ in t[3]]: errs.add((tb, t[4]))
        # while the outcome is the same failure, a later test of it does not find a success
        good = {(tb, tgt) for tb, t in tests.get(R, []) for val, tgt in t[3] + [[None, t[4]]] if tgt is not None and (val == 0 or val is None and 0 not in [x for x, _ in t[3]])} - errs
        own = None
        def passes(tgt, frm):
            nonlocal own
            if not escapes(live, tgt, frm): return False
            if len(tests.get(R, [])) < 2 or b is None: return True
            if comes_back(v, tgt, b, good): return True
            if own is None: own = nonerr_edges(v, fl, isres, good)
            return escapes(own, tgt, frm)
        def escapes(live, tgt, frm):
            for rt in live.get(tgt, ()):
                r2 = translate(v, rt, tgt, frm) if rt is not None else None
                if r2 is not None and (r2 in same or isres and iserr(r2)): continue
                return True
            return False
        if errs:
            if any(passes(x, p) for p, x in errs): bad = "the failure is passed over"
            if bad:
                for r in same:
                    for vb, t in variants.get(r, []):
                        for val, tgt in t[3] + [[None, t[4]]]:
                            if tgt is None or fl.bbs[tgt] is None: continue
                            if passes(tgt, vb): vs.add(val)
        elif b is not None:
            us = set().union(*(used.get(r, set()) for r in same))
            ret = list(live.get(b, ()))
            if "return" in us: bad = None
            elif us: bad = "the outcome is handed to %s" % ", ".join(sorted(us))
            else: bad = "the outcome is never looked at" if ret else None
        rs.append(R)
        out.append((name, bad, sorted(x for x in vs if x is not None) + (["other"] if None in vs else [])))
    # adaptors that drop failures inside an iterator
    for b in v.rpo:
        t = fl.bbs[b]["t"]
        if t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1]: continue
        f = t[1][1]["fn"]
        if DROPPERS.search(f["rp"]) and re.search(r"Result<", " ".join(map(str, f.get("rg", [])))): out.append((f["rp"], "failures inside the iterator are dropped", [])); rs.append(None)
    return out, rs


NOERR = re.compile(r"Infallible|fmt::Error|convert::Infallible")
DROPPERS = re.compile(r"Iterator::(flatten|flat_map|last|count)$|iter::Flatten")


def origin_of(x):
    while isinstance(x, T):
        if x.op == "call": return x.a[0]
        if x.op == "elem": x = x.a[0]; continue
        if x.op in ("fld", "var", "at"): x = x.a[0]; continue
        return x.op
    return "?"


def uses(v, fl):
    u = {}
    def note(t, what):
        for x in subterms_cached(t): u.setdefault(x, set()).add(what)
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] == "call":
                for x in e[2]: note(x, e[1])
            elif e[0] == "return": 
                for x in closure(v, e[1]): u.setdefault(x, set()).add("return")
            elif e[0] in ("store", "set"):
                for x in e[1:]:
                    if hasattr(x, "op"): note(x, "store")
    return u


PURE = re.compile(r"^core::str::converts::from_utf8$|^alloc::string::String::from_utf8$")


def variant_no(F, s):
    """index of a variant given as Enum|Variant"""
    e, n = s.split("|")
    for p, a in F.adts.items():
        if p == "s2protocol::" + e: return next((i for i, x in enumerate(a["variants"]) if x["name"] == n), None)
    raise Missing("enum %s is not there" % e)


def d05(ctx):
    F = ctx.F; base = base_functions(); ctx.notes_spec = True
    allow = json.load(open(os.path.join(SPEC, "skips.json")))
    sc = scope(F)
    first = [s.id for s in sc if s.bk == "fn" and (s.p in base)]
    R = pmap(F, [], swallowed, first)
    inl = set()
    for _, r, _ in R:
        if r: inl |= set(r[1])
    rest = [s.id for s in sc if s.id not in inl and s.id not in set(first)]
    R += pmap(F, [], swallowed, rest)
    used = set()
    for sid, r, err in R:
        s = F.stubs[sid]
        o = s
        while o.bk == "closure" and o.parent in F.stubs: o = F.stubs[o.parent]
        ctx.functions.add(s.p)
        if err: ctx.bad("propagates", s.p, "cannot be analysed: " + err[:300], s.file); continue
        for name, bad, vs in r[0]:
            if bad is None: ctx.ok("propagates", "%s in %s" % (name, s.p)); continue
            if PURE.search(name) and "never looked at" in bad: ctx.ok("propagates", "%s in %s (pure conversion, result unused)" % (name, s.p)); continue
            left = set(vs) or {"any"}
            for a in allow:
                if re.fullmatch(a["fn"], o.p) and re.search(a["callee"], name):
                    if not a.get("variants"): left = set()
                    else: left -= {variant_no(F, x) for x in a["variants"]}
                    ctx.ok("documented skip", "%s in %s: %s" % (name, o.p, a["why"]))
            for x in sorted(left, key=str):
                ctx.bad("propagates", "%s|%s|%s" % (o.p, name, x), "%s: %s: %s%s" % (o.p, name, bad, " (error variant %s)" % x if vs else ""), s.file)
    ctx.atleast("propagates", 2000, "calls that yield a Result")


# ---------------------------------------------------------------- D06
RULES["D06"] = ("in every function that decodes or converts replay content: each integer cast that can lose information has an operand whose interval (from decoded widths, through the fields that carry it, "
                "narrowed by the tests on the way) fits the target; each fallible integer conversion that failed makes the function fail; no wrapping or saturating operation is applied")

DECODE_FILES = re.compile(r"^src/(versions/|\w*_decoder\.rs|cache_handles/|lib\.rs|common\.rs|error\.rs|init_data/mod\.rs|details\.rs|tracker_events/|game_events/(mod|iterator|\w*event\w*)\.rs|game_events/iterator|message_events/)")
LOSSY = re.compile(r"<impl [iu](8|16|32|64|128|size)>::(wrapping_\w+|saturating_\w+|overflowing_\w+|unchecked_\w+)$|core::num::wrapping|Saturating")
INTCONV = re.compile(r"^\$(try_from|try_into)<([iu](?:8|16|32|64|128|size)),([iu](?:8|16|32|64|128|size))>$|core::convert::TryFrom<([iu]\w+)> for ([iu]\w+)>::try_from$")


def top(F, s):
    while s.bk == "closure" and s.parent in F.stubs: s = F.stubs[s.parent]
    return s


def decode_scope(F):
    return [s for s in scope(F) if DECODE_FILES.match(top(F, s).file) and not top(F, s).file.endswith(("arrow_store.rs", "arrow.rs"))]


def entry_points(F, sc):
    """functions analysed on their own: known ones, and unknown ones that no known one expands"""
    base = base_functions()
    return [s.id for s in sc if s.bk == "fn" and s.p in base], [s.id for s in sc if s.bk == "fn" and s.p not in base]


def over(F, sc, job):
    """job(F, names, sid) -> (result, inlined); known functions first, then what none of them expanded"""
    a, rest = entry_points(F, sc)
    R = pmap(F, [], job, a)
    inl = set()
    for _, r, _ in R:
        if r: inl |= set(r[1])
    rest = [x for x in rest if x not in inl] + [s.id for s in sc if s.bk == "closure" and s.id not in inl and s.parent not in inl]
    return R + pmap(F, [], job, rest)


_RNG = {}


def ranges(F):
    from rng import Ranges
    if id(F) not in _RNG: _RNG[id(F)] = Ranges(F, unary)
    return _RNG[id(F)]


PRIMITIVE = re.compile(r"^bit_packed_decoder::|^parse_vlq_int$|^peek_bits$|unit_tag|^common::")


def numeric(t):
    while t.op in ("fld", "var") : t = t.a[0]
    return t.op == "call" and bool(INTCONV.search(t.a[0]))


def masked(t, depth=0):
    """the part of a number that was cut or clamped on the way"""
    if t.op == "bin" and t.a[0] in ("BitAnd", "Rem", "Shr", "Shl", "min", "max", "BitOr", "BitXor"):
        if t.a[0] in ("BitAnd", "BitOr", "BitXor") and any(isb(x) for x in t.a[1:]): return None
        return t
    if t.op == "cast": return masked(t.a[0])
    if t.op == "fld" and t.a[0].op == "var" and t.a[0].a[0].op == "call" and INTCONV.search(t.a[0].a[0].a[0]): return masked(t.a[0].a[0].a[1][0])
    if t.op == "call" and (re.match(r"^\$(from|into)<", t.a[0]) and len(t.a[1]) == 1): return masked(t.a[1][0])
    if t.op == "call" and re.search(r"<impl \w+>::(rem_euclid|clamp|min|max|pow)$|^core::cmp::(Ord::)?(min|max|clamp)$", t.a[0]): return t
    return None


def isb(t):
    from guard import isbool
    return isbool(t) or is_const(t) and isinstance(t.a[0], bool)


def narrowings(F, names, sid):
    from rng import INTS, within, meet
    R = ranges(F); R.fresh()
    fl, v = R.flat(sid)
    out = []
    fails = None
    prim = PRIMITIVE.search(top(F, F.stubs[sid]).p)
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] == "agg" and not prim and not re.search(r"Error$", str(e[1].a[0])):
                for f in e[1].a[3] if len(e[1].a) > 3 else ():
                    m = masked(fld(e[1], f))
                    if m is not None or numeric(fld(e[1], f)): out.append(("unmasked", m is None, str(f), "field %s of %s is %s, which is not the decoded number itself" % (f, e[1].a[0], show(m)[:200] if m is not None else "")))
            if e[0] == "cast":
                x, src, dst = e[1], e[2], e[3]
                if src not in INTS or dst not in INTS or within(INTS[src], INTS[dst]): continue
                if dst in ("usize", "isize", "u64", "i64") and src in ("i64", "u64", "usize", "isize", "i32"): out.append(("length", True, show(x), "")); continue
                i = meet(R.at(x, sid, b, fl, v), INTS[src])
                out.append(("cast", within(i, INTS[dst]), "%s -> %s" % (src, dst), "%s is cast from %s to %s but can be %d..%d" % (show(x)[:200], src, dst, *i)))
            elif e[0] == "call":
                if LOSSY.search(e[1]): out.append(("no wrapping", False, e[1], "%s is applied: the number changes where it does not fit" % e[1]))
                elif INTCONV.search(e[1]):
                    if fails is None: fails = {R_: (bad, vs) for (n, bad, vs), R_ in zip(*with_results(F, sid, fl, v))}
                    bad = fails.get(e[3], (None, None))[0]
                    out.append(("conversion", bad is None, e[1], "%s: %s" % (e[1], bad)))
    return out, sorted(fl.inlined)


def d06(ctx):
    F = ctx.F
    ctx.notes.append("types decoded by the library (versions::protocol*, MapInfo) hold what its own decoders put there; casts to usize of announced lengths are covered by D07 and D09")
    for sid, r, err in over(F, decode_scope(F), narrowings):
        s = F.stubs[sid]; o = top(F, s)
        ctx.functions.add(s.p)
        if err: ctx.bad("cast", s.p, "cannot be analysed: " + err[-300:], s.file); continue
        for kind, ok, key, msg in r[0]: ctx.check(ok, kind, "%s|%s" % (o.p, key), "%s: %s" % (o.p, msg), s.file)
    ctx.atleast("cast", 20, "casts that can lose information")
    ctx.atleast("unmasked", 60, "numbers that reach a field")
    ctx.atleast("conversion", 70, "fallible integer conversions")


# ---------------------------------------------------------------- D07
RULES["D07"] = ("for every decoder with an announced count or size: the regular language of its repetitions (counted by which decoded number, with how many reads each) and of its variable-size reads equals the "
                "transcribed protocol; every argument of a call that reserves memory is bounded by a constant or, on every path, by the length of the input at hand")

ALLOC = re.compile(r"::(with_capacity\w*|try_with_capacity\w*|reserve|reserve_exact|try_reserve\w*|resize|resize_with|from_elem|repeat|repeat_n|set_len)$|BufReader.*with_capacity|Box<\[.*new_uninit_slice")
CAP = 1 << 20


def project(lines):
    """the part of a layout that is about counts: repetitions, reads inside them (anonymous), reads of announced size"""
    from grammar import determinise, minimise, text
    E = {}; acc = set(); plain = not any(re.search(r"validate_struct_tag|parse_vlq_int\(\)> [=!]= |u8\(\)> ", l) for l in lines)
    for l in lines:
        m = re.match(r"^(\d+) accept$", l)
        if m: acc.add(int(m.group(1))); E.setdefault(int(m.group(1)), []); continue
        m = re.match(r"^(\d+) \[(.*)\] (\d+)$", l)
        lab = m.group(2)
        if not lab.startswith("REP "):
            if re.search(r"\(.*<.*\)$", lab) and not re.match(r"^<|^!?\(", lab): pass
            elif plain and re.search(r"::\w+\([^<]*\)$", lab): lab = "read"
            else: lab = None
        E.setdefault(int(m.group(1)), []).append((lab, int(m.group(3)))); E.setdefault(int(m.group(3)), [])
    return text(*minimise(*determinise(E, 0, acc)))


def counted(lines): return [l for l in lines if re.search(r"REP|take\w*\([^)]*<", l)]


def in_memory(x):
    """a small multiple of the size of something that is already there"""
    while x.op == "cast": x = x.a[0]
    if is_const(x): return isinstance(x.a[0], int) and 0 <= x.a[0] <= CAP
    if x.op == "len": return True
    if x.op == "bin" and x.a[0] in ("Add", "min"): return in_memory(x.a[1]) and in_memory(x.a[2])
    if x.op == "bin" and x.a[0] == "Mul": return any(is_const(p) and isinstance(p.a[0], int) and 0 <= p.a[0] <= 16 and in_memory(q) for p, q in ((x.a[1], x.a[2]), (x.a[2], x.a[1])))
    if x.op == "bin" and x.a[0] in ("Div", "Shr"): return in_memory(x.a[1])
    return False


def reservations(F, names, sid):
    from rng import Z
    R = ranges(F); R.fresh()
    fl, v = R.flat(sid)
    out = []
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] != "call" or not ALLOC.search(e[1]) or re.search(r"repeat$", e[1]) and "str" not in e[1] and "slice" not in e[1]: continue
            x = e[2][0] if re.search(r"with_capacity|new_uninit", e[1]) else e[2][1] if len(e[2]) > 1 else e[2][0]
            i = R.at(x, sid, b, fl, v)
            ok = i[1] <= CAP or in_memory(x)
            if not ok:
                base = x
                while base.op == "cast": base = base.a[0]
                zs = R.zone((x, base), sid, b, fl, v)
                ok = any(k <= CAP and a in (x, base) and isinstance(c, T) and c.op == "len" for (a, c), k in zs.items())
            out.append((ok, e[1], show(x)[:200], i))
    return out, sorted(fl.inlined)


def d07(ctx):
    F = ctx.F; n0 = 0
    for n, want, r, err in layouts(ctx, "count"):
        if n.startswith("bit_packed_decoder::") or not counted(want["wire"]) and (err or not counted(r["wire"])): continue
        if err: ctx.bad("count", n, "cannot be analysed: " + err, where(F, n)); continue
        a, b = project(want["wire"]), project(r["wire"])
        ctx.check(a == b, "count", n, "%s repeats or reads by announced numbers differently: %s" % (n, diff(a, b)), where(F, n))
    for sid, r, err in over(F, scope(F), reservations):
        s = F.stubs[sid]
        ctx.functions.add(s.p)
        if err: ctx.bad("reservation", s.p, "cannot be analysed: " + err[-300:], s.file); continue
        for ok, name, x, i in r[0]: ctx.check(ok, "reservation", "%s|%s" % (top(F, s).p, name), "%s: %s reserves room for %s, up to %d elements, before any of it was read" % (s.p, name, x, i[1]), s.file)
    ctx.atleast("count", 55, "decoders with counts")
    ctx.atleast("reservation", 15, "calls that reserve memory")


# ---------------------------------------------------------------- D08
RULES["D08"] = ("in every function that decodes replay content or applies it to the game state: every construct that can panic (explicit panic, assertion, unwrap, indexing, slicing, splitting, division, "
                "panicking library call) is either unreachable under its path condition, or its operand is proven in range by intervals, difference bounds and the recorded lemmas (spec/lemmas.json), which are themselves checked")

PANIC_FILES = re.compile(DECODE_FILES.pattern + r"|^src/(state/|game_events/state\.rs|tracker_events/state\.rs|protocol_version_decoder\.rs)")
PANIC_CALL = re.compile(r"core::ops::index::Index(Mut)?<.*>>::index(_mut)?$|::index(_mut)?$|::split_at(_mut)?$|::copy_from_slice$|::clone_from_slice$|alloc::vec::Vec::<.*>::(remove|swap_remove|insert|drain|split_off)$"
                        r"|slice::<impl \[T\]>::(swap|chunks|chunks_exact|rchunks|windows|rotate_left|rotate_right|copy_within|as_chunks)$|panicking|::step_by$|RefCell::<.*>::borrow(_mut)?$|<impl \w+>::(div_euclid|rem_euclid|pow|abs|ilog\w*|isqrt)$"
                        r"|alloc::string::String::(remove|insert|insert_str|drain|split_off|truncate)$|::from_str_radix$|char::methods::<impl char>::(to_digit|from_digit)$|VecDeque::<.*>::(swap|insert|remove)$|process::(exit|abort)$|::clamp$"
                        r"|time::Duration|Instant as core::ops|get_unchecked|unwrap_unchecked|chrono::.*::(from_timestamp|ymd|and_hms)$")
NOPANIC = re.compile(r"^(Misaligned|NullPointer|NullReference)|Overflow")


def seqlen(v, fl, x, R):
    """(least length, greatest length or None) of a sequence, from how it was made"""
    y = x
    while True:
        if y.op == "elem" and y.a[0].op == "call":
            m = re.search(r"slice::(<impl \[T\]>::)?(chunks_exact|windows|chunks|rchunks)$", y.a[0].a[0])
            if m and len(y.a[0].a[1]) == 2 and is_const(y.a[0].a[1][1]):
                n = y.a[0].a[1][1].a[0]
                return (n if m.group(2) in ("chunks_exact", "windows") else 1, n)
        if y.op == "fld" and y.a[1] == "1":
            c = readcall(y)
            if c is not None:
                n = c[1]
                if n is not None: return (n, n)
        if y.op == "agg" and y.a[0] in ("array",): return (len(y.a[4]), len(y.a[4]))
        if y.op == "const" and isinstance(y.a[0], str) and y.a[0].startswith("bytes"): return (0, None)
        m = re.match(r"^\[.*; (\d+)\]$", R.ty(y, fl, v))
        if m: return (int(m.group(1)), int(m.group(1)))
        if y.op in ("cast",): y = y.a[0]; continue
        return (0, None)


def readcall(y):
    """y is the payload of a successful read of a constant number of bytes: (what, how many)"""
    p = y.a[0]
    if not (p.op == "fld" and p.a[1] == "0" and p.a[0].op == "var" and p.a[0].a[1] == "Ok" and p.a[0].a[0].op == "call"): return None
    c = p.a[0].a[0]
    if c.a[0].endswith("bit_packed_decoder::take_bit_array") and len(c.a[1]) == 2 and is_const(c.a[1][1]): return c.a[0], -(-c.a[1][1].a[0] // 8)
    for z in subterms_cached(c):
        if z.op == "call" and re.search(r"nom::bytes::complete::take$", z.a[0]) and len(z.a[1]) == 1 and is_const(z.a[1][0]):
            takes = {w for w in subterms_cached(c) if w.op == "call" and re.search(r"nom::bytes::complete::take$", w.a[0])}
            if c.a[0].startswith("$apply") or c.a[0].startswith("nom::"): 
                top_ = apply_of(c)
                if top_ is not None: return z.a[0], top_
    return None


def apply_of(c):
    """$apply(parser, input): the constant the parser takes"""
    f = c.a[1][0] if c.a[1] else None
    while isinstance(f, T):
        if f.op == "call" and re.search(r"nom::bytes::complete::take$", f.a[0]): return f.a[1][0].a[0] if is_const(f.a[1][0]) and isinstance(f.a[1][0].a[0], int) else None
        if f.op == "call" and re.search(r"dbg_peek_hex|dbg_dmp", f.a[0]): f = f.a[1][0]; continue
        if f.op in ("fld", "closure") or f.op == "agg":
            f = f.a[0] if f.op == "fld" else None; continue
        return None
    return None


def panics(F, names, sid):
    R = ranges(F); R.fresh()
    fl, v = R.flat(sid)
    out = panics_in(F, R, sid, fl, v)
    if not all(x[0] for x in out):
        # once more with the library's own small functions expanded
        try: R2 = deep_ranges(F); R2.fresh(); fl2, v2 = R2.flat(sid)
        except Exception: fl2 = None
        if fl2 is not None:
            alt = panics_in(F, R2, sid, fl2, v2)
            if sum(not x[0] for x in alt) < sum(not x[0] for x in out): out = alt
    return out, sorted(fl.inlined)


def small(F):
    if not hasattr(F, "_small"):
        F._small = set()
        for s in F.stubs.values():
            if s.bk == "fn" and not s.exp and s.raw.count('"src"') < 5000 and len(F.body(s.id).bbs) <= 40: F._small.add(s.id)
    return F._small


def unary_deep(F, names, sid):
    from flat import Flattener
    from thread import thread
    sm = small(F)
    def stop(i, p):
        s = F.stubs.get(i)
        return s is None or i not in sm or bool(s.exp) or bool(F.impl_exp(i)) or re.search(r"^(versioned_decoder|bit_packed_decoder)::|parse_vlq_int", p) is not None
    fl = Flattener(F, stop=stop, max_blocks=20000).flatten(sid)
    return fl, thread(F, fl, grow=3.0)


_RNG2 = {}


def deep_ranges(F):
    from rng import Ranges
    if id(F) not in _RNG2: _RNG2[id(F)] = Ranges(F, unary_deep)
    return _RNG2[id(F)]


def variants_of(F, p):
    """the variants a function can return, if every return builds its value there"""
    ids = F.by_pretty.get(p) or []
    if len(ids) != 1 or F.stubs[ids[0]].bk != "fn": return None
    m = F.__dict__.setdefault("_retvar", {})
    if p in m: return m[p]
    m[p] = None
    fl, v = ranges(F).flat(ids[0])
    r = set()
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] != "return": continue
            todo, seen = [e[1]], set()
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x)
                if x.op == "phi": todo += list(v.phis.get(x, {}).values()); continue
                d = discr_(x)
                if not is_const(d): return None
                r.add(d.a[0])
    m[p] = r or None
    return m[p]


def possible(F, G, f):
    """strengthen a path condition by what the functions called can return at all"""
    for a in list(G.b.support(f)):
        if a[0] == "val" and a[1].op == "discr" and a[1].a[0].op == "call":
            vs = variants_of(F, a[1].a[0].a[0])
            if vs is not None: f = G.b.AND(f, G.b.any([G.formula(a[1], x) for x in vs]))
        elif a[0] == "val" and a[1].op == "discr" and a[1].a[0].op == "phi":
            # a choice made earlier: it came out this way only along the edges that say so
            w = came(G, a[1].a[0], a[2])
            if w is not None:
                f = G.b.AND(f, G.b.OR(G.b.NOT(G.b.var(a)), w[0]))
                f = G.b.AND(f, G.b.OR(G.b.var(a), w[1]))
    return G.excl(f)


def came(G, ph, val, seen=()):
    """the ways on which a choice made earlier comes out as this alternative, and those on which it does not"""
    ops = G.v.phis.get(ph, {})
    if not ops or ph in seen: return None
    yes, no = [], []
    for p, o in ops.items():
        e, d = G.phi_edge(p, ph.a[0]), discr_(o)
        if is_const(d): (yes if d.a[0] == val else no).append(e); continue
        w = came(G, o, val, seen + (ph,)) if o.op == "phi" else None
        if w is None: return None
        yes.append(G.b.AND(e, w[0])); no.append(G.b.AND(e, w[1]))
    return G.b.any(yes), G.b.any(no)


def panics_in(F, R, sid, fl, v):
    out = []
    for b in v.rpo:
        evs = list(v.ev[b])
        for e in evs:
            if e[0] == "panic": what, ops = "panic " + str(e[1]), ()
            elif e[0] == "assert":
                if NOPANIC.search(str(e[1])): continue
                what, ops = "assert " + str(e[1]), (e[2],)
            elif e[0] == "call" and PANIC_CALL.search(e[1]): what, ops = e[1], e[2]
            else: continue
            why = discharge(F, R, sid, fl, v, b, e, what, ops)
            out.append((why is not None, what, ", ".join(show(x)[-160:] for x in ops), why))
    return out


def positive(x, R, sid, b, fl, v): return R.at(x, sid, b, fl, v)[0] > 0


def discharge(F, R, sid, fl, v, b, e, what, ops):
    try:
        G = R.guards(sid)
        f = possible(F, G, G.at[b])
        if isinstance(f, int) and f == 0: return "its path condition cannot hold"
    except Exception: G = None
    if e[0] == "assert":
        c = ops[0]
        if is_const(c): return "constant" if bool(c.a[0]) == bool(e[4]) else None
        if what.startswith(("assert DivisionByZero", "assert RemainderByZero")):
            for x in subterms_cached(c):
                if x.op == "bin" and x.a[0] == "Eq" and is_const(x.a[2]) and x.a[2].a[0] == 0 and R.at(x.a[1], sid, b, fl, v)[0] > 0: return "the divisor is positive"
            return None
        if c.op == "un" and c.a[0] == "Not" and c.a[1].op == "bin" and c.a[1].a[0] == "Lt" and is_const(c.a[1].a[2]):
            # the length is not below the index and one
            c = mk("bin", "Lt", const(c.a[1].a[2].a[0] - 1), c.a[1].a[1])
        if c.op == "bin" and c.a[0] == "Lt":
            i, n = c.a[1], c.a[2]
            hi = R.at(i, sid, b, fl, v)[1]; lo = R.at(n, sid, b, fl, v)[0]
            if n.op == "len": lo = max(lo, seqlen(v, fl, n.a[0], R)[0])
            if hi < lo: return "index at most %d, length at least %d" % (hi, lo)
            z = R.zone((i, n), sid, b, fl, v)
            if z.get((i, n), 0) < 0: return "index below length by the tests on the way"
        return None
    if what.startswith("panic "):
        o = F.stubs[sid]
        if o.file.endswith("error.rs") and G is not None and incomplete(G, f): return "lemma complete parsers"
        return None
    name = e[1]
    if re.search(r"::index(_mut)?$", name) and len(ops) == 2:
        base, i = ops
        if i.op == "agg" and str(i.a[0]).endswith("RangeFull"): return "whole range"
        n0 = max(seqlen(v, fl, base, R)[0], lemma_len(base))
        if i.op == "agg" and "Range" in str(i.a[0]):
            s_, e_ = (fld(i, "start") if "start" in i.a[3] else const(0)), (fld(i, "end") if "end" in i.a[3] else None)
            ok = R.at(s_, sid, b, fl, v)[1] <= n0 if e_ is None else is_const(s_) and is_const(e_) and s_.a[0] <= e_.a[0] <= n0
            if ok: return "range within a length of at least %d" % n0
            if e_ is None and s_.op == "fld" and s_.a[1] == "byte_index" and base.op == "fld" and base.a[1] == "event_data" and same(s_.a[0], base.a[0]): return "lemma cursor"
            if e_ is None and R.zone((s_, mk("len", base)), sid, b, fl, v).get((s_, mk("len", base)), 1) <= 0: return "start at most the length by the tests on the way"
            return None
        if R.at(i, sid, b, fl, v)[1] < n0 and R.at(i, sid, b, fl, v)[0] >= 0: return "index below a length of at least %d" % n0
        if i.op == "iterindex" and enumerates(v, i, base): return "index of an element of the same sequence"
        L = mk("len", base)
        if R.zone((i, L), sid, b, fl, v).get((i, L), 0) < 0: return "index below length by the tests on the way"
        return None
    if re.search(r"::(chunks|chunks_exact|rchunks|windows|step_by|rem_euclid|div_euclid)$", name) and len(ops) > 1 and positive(ops[1], R, sid, b, fl, v): return "positive constant"
    if re.search(r"::from_str_radix$", name) and is_const(ops[1]) and 2 <= ops[1].a[0] <= 36: return "valid radix"
    if re.search(r"chrono::.*::from_timestamp$", name): return "yields an Option"
    return None


def same(a, b): return a is b


def incomplete(G, f):
    """the path is taken only by a parser that asks for more input"""
    for a in G.b.support(f):
        if a[0] == "val" and a[1].op == "discr" and a[2] == 0 and a[1].a[0].op == "param":
            g = G.b.AND(f, G.b.NOT(G.b.var(a)))
            if isinstance(g, int) and g == 0: return True
    return False


def lemma_len(x):
    """control groups: eleven per player"""
    return 11 if x.op == "fld" and x.a[1] == "control_groups" else 0


def enumerates(v, i, base):
    w = getattr(v, "_enum", None)
    return base in [x for x in subterms_cached(i)] or iter_base(v, i, base)


def iter_base(v, i, base):
    """iterindex(b): the loop at b runs over base"""
    for e in v.ev.get(i.a[0], ()) if isinstance(i.a[0], int) else ():
        if e[0] == "call":
            for x in e[2]:
                if base in subterms_cached(x): return True
            if isinstance(e[3], T) and base in subterms_cached(e[3]): return True
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] == "call" and e[1] == "$iternext" and len(e[2]) > 1 and show(e[2][1]) == show(i)[10:-1] and e[2][0] is base: return True
    return False


SHRINK = re.compile(r"alloc::vec::Vec::<.*>::(clear|truncate|pop|remove|swap_remove|drain|split_off|retain\w*|dedup\w*|set_len|append|resize\w*)$")


def advanced(x):
    """a position in event_data: where a decoder that was given event_data[byte_index..] stopped"""
    if is_const(x): return x.a[0] == 0
    if x.op != "bin": return False
    data = lambda y: y.op == "fld" and y.a[1] == "event_data"
    if x.a[0] == "Sub": return x.a[1].op == "len" and data(x.a[1].a[0]) and x.a[2].op == "len" and leftover(x.a[2].a[0]) is not None
    if x.a[0] != "Add": return False
    for i, d in (x.a[1:], x.a[1:][::-1]):
        if i.op == "fld" and i.a[1] == "byte_index" and d.op == "bin" and d.a[0] == "Sub":
            p, q = (uncast(y) for y in d.a[1:])
            if p.op == "len" and q.op == "len": p, q = q, p; ok = True
            else: ok = p.op == q.op == "call" and p.a[0].endswith("::as_ptr") and p.a[0] == q.a[0]
            if not ok: return False
            p, q = (y.a[0] if y.op == "len" else y.a[1][0] for y in (p, q))
            return isdata(q, i) and leftover(p) is q
    return False


def isdata(q, i):
    return q.op == "call" and q.a[0].endswith("slice") and len(q.a[1]) == 2 and q.a[1][0].op == "fld" and q.a[1][0].a[1] == "event_data" and q.a[1][1].op == "agg" and fld(q.a[1][1], "start") is i or \
        q.op == "slice" and q.a[0].op == "fld" and q.a[0].a[1] == "event_data" and fld(q.a[1], "start") is i


def uncast(y):
    while y.op == "cast": y = y.a[0]
    return y


def leftover(p):
    """the input a decoder was given, if p is the remainder it handed back"""
    y = p
    while y.op == "fld": y = y.a[0]
    if y.op == "var" and y.a[1] == "Ok" and y.a[0].op == "call" and y.a[0].a[1]:
        x = y.a[0].a[1][0]
        return fld(x, "0") if x.op == "agg" and x.a[0] == "tuple" else x
    return None


def lpath(p):
    """name of the last field of a path inside a local"""
    if not p: return None
    q = p[-1]
    while isinstance(q, tuple) and q: q = q[-1]
    return q


def lemmas(ctx, F):
    """the two facts about data structures the bounds rest on"""
    R = ranges(F)
    fs = [s for s in scope(F) if s.bk == "fn" and PANIC_FILES.match(s.file)]
    known, other = entry_points(F, fs)
    within = {i for x in known for i in R.flat(x)[0].inlined}
    for sid in sorted(s.id for s in fs if not (s.id in other and s.id in within) and re.search(r"byte_index|control_groups|event_data", s.raw + "".join(F.stubs[c].raw for c in list(F.children.get(s.id, ())) + sorted(R.flat(s.id)[0].inlined) if c in F.stubs))):
        fl, v = R.flat(sid); p = F.stubs[sid].p
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] in ("store", "lstore"):
                    f = (e[1].a[1] if e[1].op == "fld" else None) if e[0] == "store" else lpath(e[2])
                    if f == "byte_index":
                        x = e[2] if e[0] == "store" else e[3]
                        ok = advanced(x)
                        ctx.check(ok, "lemma cursor", p, "%s: the stream position becomes %s, which is not the length of the data less the length of what is left" % (p, show(x)[:200]), F.stubs[sid].file)
                    elif f in ("event_data", "control_groups"): ctx.check(False, "lemma " + f, p, "%s replaces %s as a whole" % (p, f), F.stubs[sid].file)
                elif e[0] == "agg" and "byte_index" in (e[1].a[3] if len(e[1].a) > 3 else ()):
                    x = fld(e[1], "byte_index"); ctx.check(is_const(x) and x.a[0] == 0, "lemma cursor", p, "%s starts a stream at %s" % (p, show(x)[:100]), F.stubs[sid].file)
                elif e[0] == "agg" and "control_groups" in (e[1].a[3] if len(e[1].a) > 3 else ()) and str(e[1].a[0]).endswith("SC2UserState"):
                    ctx.check(filled(fl, v, R, sid, fld(e[1], "control_groups")) >= 11, "lemma groups", p, "%s does not provide eleven control groups" % p, F.stubs[sid].file)
                elif e[0] == "call" and SHRINK.search(e[1]) and e[2] and e[2][0].op == "fld" and e[2][0].a[1] == "control_groups":
                    ctx.check(False, "lemma groups", p, "%s changes the number of control groups by %s" % (p, e[1]), F.stubs[sid].file)
    ctx.atleast("lemma cursor", 4, "stream positions")
    ctx.atleast("lemma groups", 1, "construction of the control groups")
    # streaming parsers may ask for more input, which the error conversion does not expect
    n = 0
    for s in scope(F):
        if s.bk not in ("fn", "closure"): continue
        n += 1
        if re.search(r'"nom::[\w:]*::streaming::', s.raw): ctx.bad("complete parsers", s.p, "%s uses a streaming parser: missing input would reach the unreachable branch of the error conversion" % s.p, s.file)
    ctx.ok("complete parsers", "no nom::*::streaming parser", n)


def filled(fl, v, R, sid, x):
    """how many elements a freshly built vector is known to have"""
    seqs = {x}
    todo = [x]
    while todo:
        y = todo.pop()
        for z in list(v.phis.get(y, {}).values()) if y.op == "phi" else ([y.a[0]] if y.op in ("mut", "upd") else []):
            if isinstance(z, T) and z not in seqs: seqs.add(z); todo.append(z)
    n = 0
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] != "call": continue
            if re.search(r"from_elem$", e[1]) and e[3] in seqs: n = max(n, R.iv(e[2][1], fl, v)[0])
            if re.search(r"::push$", e[1]) and e[2] and (e[2][0] in seqs or any(q in seqs for q in subterms_cached(e[2][0]))):
                # one push per round of a counted loop
                for h in v.rpo:
                    for g in v.ev[h]:
                        if g[0] == "call" and "iternext" in str(g[1]) or g[0] == "call" and isinstance(g[3], T) and g[3].op == "iternext":
                            r = g[2][0] if g[2] else g[3].a[0]
                            for q in subterms_cached(g[3]) | subterms_cached(r):
                                if q.op == "agg" and str(q.a[0]).endswith("range::Range"):
                                    lo, hi = R.iv(fld(q, "start"), fl, v), R.iv(fld(q, "end"), fl, v)
                                    n = max(n, hi[0] - lo[1])
    return n


def d08(ctx):
    F = ctx.F
    sc = [s for s in scope(F) if PANIC_FILES.match(top(F, s).file) and not top(F, s).file.endswith(("arrow_store.rs", "arrow.rs")) and "/arrow_store/" not in top(F, s).file]
    lemmas(ctx, F)
    for sid, r, err in over(F, sc, panics):
        s = F.stubs[sid]; o = top(F, s)
        ctx.functions.add(s.p)
        if err: ctx.bad("panic", s.p, "cannot be analysed: " + err[-300:], s.file); continue
        for ok, what, ops, why in r[0]:
            if ok: ctx.ok("panic", "%s in %s: %s" % (what, s.p, why))
            else: ctx.bad("panic", "%s|%s|%s" % (o.p, what[-60:], ops[-60:]), "%s: %s (%s) can panic" % (o.p, what, ops), s.file)
    ctx.atleast("panic", 40, "constructs that can panic")


CHECKS = {"D08": d08, "D07": d07, "D05": d05, "D06": d06, "D01": d01, "D02": d02, "D03": d03, "D04": d04}
