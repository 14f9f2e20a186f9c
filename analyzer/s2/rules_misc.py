"""Termination, stream positions, ability names, map files and player identities."""
import re
from ctx import RULES, Missing
from rules_decode import *
from rules_decode import _RNG2

INFINITE = re.compile(r"RangeFrom|iter::(sources::)?(repeat|repeat_with|successors|from_fn)|::cycle$|adapters::cycle")
READERS = {"game": "game_events::iterator::GameEventIteratorState::read_versioned_game_event", "tracker": "tracker_events::iterator::TrackertEventIteratorState::read_versioned_tracker_event"}
STATES = {"game": "game_events::iterator::GameEventIteratorState::get_next_event", "tracker": "tracker_events::iterator::TrackertEventIteratorState::get_next_event"}


# ---------------------------------------------------------------- D09
RULES["D09"] = ("every cycle of every function of the library either takes the next element of a finite sequence made before the cycle, or carries an input position that each round replaces by what a "
                "decoder that consumes at least one bit left over, or reduces a remaining count to zero; no function of the decode code calls itself without consuming input; "
                "a stream is read on after a failure only if its position was advanced first")


def succmap(v):
    S = {b: [] for b in v.rpo}
    for b in v.rpo:
        for p in v.preds[b]:
            if p in S: S[p].append(b)
    return S


def sccs(nodes, S):
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]
    for root in sorted(nodes):
        if root in idx: continue
        work = [(root, iter(S[root]))]
        idx[root] = low[root] = n[0]; n[0] += 1; st.append(root); on.add(root)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in nodes: continue
                if y not in idx:
                    idx[y] = low[y] = n[0]; n[0] += 1; st.append(y); on.add(y)
                    work.append((y, iter(S[y]))); break
                elif y in on: low[x] = min(low[x], idx[y])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = set()
                    while True:
                        y = st.pop(); on.discard(y); c.add(y)
                        if y == x: break
                    if len(c) > 1 or x in S[x]: out.append(c)
    return out


_CONS = {}


def consuming(F):
    """decoders each success of which consumes at least one bit (fixpoint over the recorded layouts, which D01 compares with the code)"""
    if _CONS: return _CONS["v"]
    from wire import spec
    lay = {n: d["wire"] for n, d in spec()["decoders"].items()}
    lay["bit_packed_decoder::rtake_n_bits"] = ["0 accept"]
    good = {"nom::number::complete::u8"}
    def step(lab, good):
        m = re.match(r"\[(.*)\]$", lab)
        m = re.match(r"([\w:<>, ]+?)\((.*)\)$", m.group(1) if m else lab)
        if not m: return False
        nm, a = m.group(1), m.group(2)
        k = re.search(r"(\d+)$", a)
        if re.search(r"complete::(u8|u16|u32|u64|i32|le_\w+|tag)$", nm): return True
        if re.search(r"complete::take$|take_n_bits_into_i64$|take_bit_array$|parse_packed_int$", nm): return bool(k) and int(k.group(1)) > 0 and "(" not in a
        return nm in good
    changed = True
    while changed:
        changed = False
        for n, lines in lay.items():
            if n in good: continue
            E, acc = {}, set()
            for l in lines:
                m = re.match(r"(\d+) accept$", l)
                if m: acc.add(int(m.group(1))); continue
                m = re.match(r"(\d+) (.*) (\d+)$", l)
                if m and not step(m.group(2), good): E.setdefault(int(m.group(1)), []).append(int(m.group(3)))
            seen, st = {0}, [0]
            while st:
                for y in E.get(st.pop(), ()):
                    if y not in seen: seen.add(y); st.append(y)
            if not seen & acc and acc: good.add(n); changed = True
    _CONS["v"] = good
    return good


def chain_to(x, P, good, n=0):
    """number of consuming decoders on the way from position P to position x, or None"""
    while n < 60:
        n += 1
        if x is P: return 0
        y = x
        # the same position: a pair of it and an offset taken from the same place
        if y.op == "agg" and y.a[0] == "tuple" and y.a[4]:
            r = chain_to(y.a[4][0], P, good, n)
            return r
        if y.op == "fld" and y.a[0] is P: return 0
        z = y
        while z.op in ("fld", "cast"): z = z.a[0]
        if z.op == "var" and z.a[1] in ("Ok", "Continue") and z.a[0].op == "call" and z.a[0].a[1]:
            c = z.a[0]; nm = c.a[0]
            inp = c.a[1][1] if nm == "$apply" else c.a[1][0]
            inside = nm if nm != "$apply" else next((q.a[0] for q in subterms_cached(c.a[1][0]) if q.op in ("fn", "call") and isinstance(q.a[0], str)), "")
            k = 1 if consumes(c, good) else 0
            r = chain_to(inp, P, good, n)
            return None if r is None else r + k
        if y.op == "fld": x = y.a[0]; continue
        return None


def consumes(c, good):
    nm = c.a[0]
    if nm in good: return True
    if nm == "$apply":
        for q in subterms_cached(c.a[1][0]):
            if q.op == "fn" and (str(q.a[0]) in good or re.search(r"complete::(u8|u16|u32|u64|le_\w+)$", str(q.a[0]))): return True
            if q.op == "call" and re.search(r"complete::(tag|take|u32|u64)$", str(q.a[0])) and q.a[1] and (not is_const(q.a[1][0]) or q.a[1][0].a[0] not in (0,)): return re.search(r"take$", str(q.a[0])) is None or is_const(q.a[1][0])
    return bool(re.search(r"complete::(u8|u16|u32|u64|le_\w+)$", str(nm)))


def carried(v, C):
    """values carried around the cycle: {phi: operands coming from inside}"""
    out = {}
    for t, ops in v.phis.items():
        h = t.a[0]
        if h not in C: continue
        inn = [o for p, o in ops.items() if p in C]
        outer = [o for p, o in ops.items() if p not in C]
        if inn and outer: out[t] = inn
    return out


def atoms(v, x, C, P):
    """what a carried value can be after one round, through the joins inside the cycle"""
    out, todo, seen = [], [x], set()
    while todo:
        y = todo.pop()
        if y in seen: continue
        seen.add(y)
        if y.op == "phi" and y is not P and y.a[0] in C and y in v.phis: todo += list(v.phis[y].values())
        else: out.append(y)
    return out


def measured(v, R, sid, fl, P, inn, C):
    """a count that falls by what is read and is tested against zero"""
    for o in inn:
        for x in atoms(v, o, C, P):
            if not (x.op == "bin" and x.a[0] == "Sub" and x.a[1] is P): return False
            for s in atoms(v, x.a[2], C, P):
                if is_const(s) and s.a[0] > 0 or s is P: continue
                if s.op == "bin" and s.a[0] == "min" and all(y is P or is_const(y) and y.a[0] > 0 for y in s.a[1:]): continue
                if s.op == "bin" and s.a[0] == "Sub" and is_const(s.a[1]) and s.a[1].a[0] == 8 and s.a[2].op == "fld": continue   # bits left in a byte: nom keeps the bit offset below eight
                return False
    # leaves the cycle at zero
    for b in C:
        for e in v.ev[b]:
            if e[0] == "switch":
                for q in subterms_cached(e[1]):
                    if q.op == "bin" and (q is P or q.a[1] is P or (isinstance(q.a[1], T) and q.a[1].op == "bin" and q.a[1].a[1] is P)): return True
                    if q is P: return True
    return False


def sequence(e):
    return e[0] == "call" and (e[1] == "$iternext" or re.search(r"Iterator(>|)::next$|::next$", e[1]) and e[2])


def defined_in(v, l, C):
    """is local l assigned inside the cycle"""
    if not hasattr(v, "_defs"):
        v._defs = {}
        for b in v.rpo:
            bb = v.fl.bbs[b]
            for st in bb["s"]:
                if len(st[0]) == 1: v._defs.setdefault(st[0][0], set()).add(b)
            if bb["t"][0] == "call" and bb["t"][3] and len(bb["t"][3]) == 1: v._defs.setdefault(bb["t"][3][0], set()).add(b)
    return bool(v._defs.get(l, set()) & C)


def made_at(v, e, C):
    """the sequence an iteration step advances was made outside the cycle, and is finite"""
    if e[1] == "$iternext":
        base, k = e[2][0], e[2][1]
        site = k.a[0] if isinstance(k, T) and k.op == "const" else k
        if any(INFINITE.search(str(q.a[0])) for q in subterms_cached(base) if q.op in ("agg", "call", "mut")): return False
        return not defined_in(v, site, C)
    x = e[2][0]
    if any(INFINITE.search(str(q.a[0])) for q in subterms_cached(x) if q.op in ("agg", "call", "mut")): return False
    # the receiver changes only by being advanced
    roots = {q.a[0] for q in subterms_cached(x) if q.op == "phi"}
    return not (roots & C) or x.op == "phi" and all(y.op == "mut" or y is x for o in [q for p, q in v.phis[x].items() if p in C] for y in atoms(v, o, C, x))


def unsupported_no(F):
    ad = F.adts.get("s2protocol::error::S2ProtocolError") or {}
    return next((i for i, x in enumerate(ad.get("variants", ())) if x["name"] == "UnsupportedEventType"), None)


def stream_loop(F, R, sid, fl, v, C, good):
    """a stream reader is called, and gone on with only where it advanced"""
    G = R.guards(sid)
    prog = set()
    for b in sorted(C):
        for e in v.ev[b]:
            if e[0] != "call" or not (e[1] in READERS.values() or e[1] in STATES.values()): continue
            res = e[3]
            if e[1] in STATES.values(): prog.add(b); continue
            # back edges after a failure: the failure must be that of an event kind
            k = unsupported_no(F); fine = True
            for t in v.rpo:
                if t not in C: continue
                for s in fsuccs_(v, t):
                    if s in C and v.pos[s] <= v.pos[t]:
                        f = G.phi_edge(t, s)
                        err = G.formula(mk("discr", res), 1)
                        alt = [G.formula(x, k) for x in [mk("discr", fld(var_(res, "Err"), "0"))]]
                        if not G.implied(f, G.b.OR(G.b.NOT(err), alt[0])): fine = False
            if fine: prog.add(b)
    return prog


def fsuccs_(v, b):
    from flat import fsuccs
    return fsuccs(v.fl.bbs[b]["t"])


def var_(x, n): return mk("var", x, n)


def merge_loop(F, v, C):
    """the merged stream: each round either hands an event to the state or ends"""
    return {b for b in C for e in v.ev[b] if e[0] == "call" and e[1].endswith("handle_transition_to_next_event")}


def progress(F, names, sid):
    R = ranges(F); R.fresh()
    fl, v = R.flat(sid)
    good = consuming(F)
    S = succmap(v); out = []
    todo = sccs(set(v.rpo), S)
    while todo:
        C = todo.pop()
        prog, why = set(), []
        for b in C:
            for e in v.ev[b]:
                if sequence(e) and made_at(v, e, C): prog.add(b); why.append("next element")
        if not prog:
            for P, inn in carried(v, C).items():
                rs = [chain_to(x, P, good) for o in inn for x in atoms(v, o, C, P)]
                if rs and all(r for r in rs): prog.add(P.a[0]); why.append("position moves on by a decoder that consumes input"); break
                if measured(v, R, sid, fl, P, inn, C): prog.add(P.a[0]); why.append("remaining count falls to zero"); break
        if not prog:
            p2 = stream_loop(F, R, sid, fl, v, C, good) | merge_loop(F, v, C)
            if p2: prog |= p2; why.append("the stream advances")
        rest = C - prog
        line = v.fl.bbs[min(C)]["src"][1] if v.fl.bbs[min(C)].get("src") else ""
        out.append((bool(prog), ", ".join(sorted(set(why))), line))
        if prog: todo += sccs(rest, S)
    return out, sorted(fl.inlined)


def stored_before(v, pred, at):
    """does every path to block `at` pass a block satisfying pred?"""
    done = {}
    for b in v.rpo:
        ps = [p for p in v.preds[b] if v.pos[p] < v.pos[b]]
        done[b] = bool(pred(b)) or (bool(ps) and all(done[p] for p in ps))
    return done[at]


def callgraph(F):
    if not hasattr(F, "_cg"):
        g = {}
        for s in F.stubs.values():
            if s.bk not in ("fn", "closure"): continue
            g[s.id] = set(re.findall(r'"rid": ?"(s2protocol::[^"]+)"', s.raw)) | set(F.children.get(s.id, ()))
        F._cg = g
    return F._cg


def recursion(ctx, F):
    """no function reaches itself again"""
    g = callgraph(F)
    nodes = {x for x in g if x in F.stubs and not F.impl_exp(x) and not F.stubs[x].exp and PANIC_FILES.match(F.stubs[x].file)}
    S = {x: [y for y in g[x] if y in nodes] for x in nodes}
    from wire import all_decoders
    start = {i for n in all_decoders(F) + VEC_READERS + list(READERS.values()) + list(STATES.values()) for i in F.by_pretty.get(n, ())}
    start |= {x for x in nodes if re.search(r"^src/(versions|state|game_events|tracker_events|details|init_data)", F.stubs[x].file)}
    todo, nodes = list(start), set()
    while todo:
        x = todo.pop()
        if x in nodes or x not in S: continue
        nodes.add(x); todo += S[x]
    S = {x: [y for y in S[x] if y in nodes] for x in nodes}
    cyc = sccs(nodes, S)
    bad = {x for c in cyc for x in c}
    for x in sorted(nodes):
        s = F.stubs[x]
        ctx.check(x not in bad, "recursion", s.p, "%s can call itself again (through %s)" % (s.p, ", ".join(sorted(F.stubs[y].p for c in cyc if x in c for y in c))[:300]), s.file)
    ctx.atleast("recursion", 1000, "functions and closures")


def d09(ctx):
    F = ctx.F
    sc = scope(F)
    for sid, r, err in over(F, sc, progress):
        s = F.stubs[sid]; o = top(F, s); ctx.functions.add(s.p)
        if err: ctx.bad("cycle", s.p, "cannot be analysed: " + err[-300:], s.file); continue
        for ok, why, line in r[0]:
            if ok: ctx.ok("cycle", "%s: %s" % (s.p, why)); ctx.count(why)
            else: ctx.bad("cycle", o.p, "%s: a cycle neither consumes input, nor counts down, nor ends with a finite sequence" % o.p, s.file)
    streams(ctx, F, only={"byte_index"})
    recursion(ctx, F)
    ctx.atleast("cycle", 120, "cycles of the library")


# ---------------------------------------------------------------- V04
RULES["V04"] = ("in both stream readers, wherever an event was decoded, its position and its time are stored before the event is converted or the reader returns; the streams end only at the end of the data or at an "
                "error other than an unsupported kind; readers of whole streams hand out for each event its own time plus that of the events skipped since the last one handed out, and return only when the input is used up")

TRIPLET = re.compile(r"::parse_event_(triplet|pair)$")
VEC_READERS = ["versions::protocol75689::bit_packed::GameEEventId::read_events", "versions::protocol87702::events::game::<impl versions::protocol87702::bit_packed::GameEEventId>::read_events",
               "versions::protocol87702::events::message::<impl versions::protocol87702::bit_packed::GameEMessageId>::read_events",
               "versions::protocol87702::events::tracker::<impl versions::protocol87702::byte_aligned::ReplayTrackerEEventId>::read_tracker_events"]


def payload(T_): return fld(var_(T_, "Ok"), "0")


def triplets(v):
    return [(b, e) for b in v.rpo for e in v.ev[b] if e[0] == "call" and TRIPLET.search(e[1])]


def parts(T_):
    """what a decoded event is made of: time, user, event"""
    p = payload(T_); q = fld(p, "1")
    d, u = fld(q, "0"), fld(q, "1")
    trip = T_.a[0].endswith("triplet")
    return fld(p, "0"), d, (u if trip else None), (fld(q, "2") if trip else u)


def uncasted(x):
    while x.op == "cast": x = x.a[0]
    return x


def okpath(G, b, T_):
    """blocks that are reached with the event decoded: the path condition does not say the decoding failed"""
    return G.excl(G.b.AND(G.at[b], G.formula(mk("discr", T_), 0)))


def streams(ctx, F, only=None):
    R = ranges(F)
    for kind, n in sorted(READERS.items()):
        sid = ctx.anchor(n); f = F.stubs[sid].file
        fl, v = R.flat(sid); G = R.guards(sid)
        ts = triplets(v)
        ctx.check(len(ts) >= 1, "reads events", n, "%s decodes no event" % n, f)
        for tb, te in ts:
            T_ = te[3]; tail, d, u, ev = parts(T_)
            fields = {"byte_index": None, "event_loop": None}
            if kind == "game": fields["bit_index"] = None
            if only: fields = {k: None for k in fields if k in only}
            sets = {k: {} for k in fields}
            for b in v.rpo:
                for i, e in enumerate(v.ev[b]):
                    if e[0] == "store" and e[1].op == "fld" and e[1].a[1] in sets: sets[e[1].a[1]].setdefault(b, []).append((i, e[2], e[1]))
            S = succmap(v); reach = reach_from(S, tb)
            for k, bs in sets.items():
                mine = {b: l for b, l in bs.items() if b in reach or b == tb}
                for b, l in mine.items():
                    for i, x, place in l:
                        if T_ not in subterms_cached(x):
                            if k == "byte_index" or k == "event_loop": ctx.check(any(o in subterms_cached(x) for o in [t[1][3] for t in ts]), "advance", "%s %s" % (n, k), "%s sets %s to %s, not from the event just decoded" % (n, k, show(x)[:200]), f)
                            continue
                        if k == "byte_index": ok = advanced(x)
                        elif k == "bit_index": ok = uncasted(x) is fld(tail, "1")
                        else: ok = x.op == "bin" and x.a[0] == "Add" and {uncasted(y) for y in x.a[1:]} == {fld(place.a[0], "event_loop"), d}
                        ctx.check(ok, "advance", "%s %s" % (n, k), "%s: %s becomes %s" % (n, k, show(x)[:300]), f)
                own = {b: min(i for i, x, _ in l if T_ in subterms_cached(x)) for b, l in mine.items() if any(T_ in subterms_cached(x) for _, x, _ in l)}
                times = [sum(T_ in subterms_cached(x) for _, x, _ in l) for l in mine.values()]
                ctx.check(all(t <= 1 for t in times) and not any(y != x and y in reach_from(S, x) for x in own for y in own), "advance once", "%s %s" % (n, k), "%s advances %s more than once for one event" % (n, k), f)
                # every end of a path on which the event was decoded, and every conversion of it
                for b in v.rpo:
                    if b not in reach and b != tb: continue
                    for i, e in enumerate(v.ev[b]):
                        conv = e[0] == "call" and e[1].startswith(("$try_from", "$try_into", "$from", "$into")) and ev in e[2]
                        if not (conv or e[0] == "return"): continue
                        ok = stored(v, own, b, i, tb, G, T_)
                        ctx.check(ok, "advance first", "%s|%s|%s" % (n, k, "conversion" if conv else "return"), "%s can %s before %s is advanced past the event" % (n, "convert the event" if conv else "return", k), f)
            if not any(e[0] == "call" and ev in e[2] for b in v.rpo for e in v.ev[b]): ctx.bad("advance first", n + " conversion", "%s does not convert the event it decoded" % n, f)
        # what is handed out
        if only: continue
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] == "agg" and re.search(r"::(Game|Tracker)Event$", str(e[1].a[0])): record(ctx, v, n, f, e[1], ts, None)
    for kind, n in sorted(STATES.items()) if not only else ():
        sid = ctx.anchor(n); f = F.stubs[sid].file
        fl, v = R.flat(sid); G = R.guards(sid)
        calls = [(b, e) for b in v.rpo for e in v.ev[b] if e[0] == "call" and e[1] == READERS[kind]]
        ctx.check(len(calls) == 1, "one reader", n, "%s reads events in %d places" % (n, len(calls)), f)
        if len(calls) != 1: continue
        cb, ce = calls[0]; res = ce[3]; k = unsupported_no(F)
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] == "agg" and str(e[1].a[0]).endswith("SC2EventType"):
                    x = fld(e[1], "game_loop" if kind == "game" else "tracker_loop")
                    after = x.op == "fld" and x.a[1] == "event_loop" and x.a[0].op == "mut" and x.a[0].a[1] == READERS[kind]
                    ctx.check(after, "time of event", n, "%s reports the time %s instead of the stream's time after the event" % (n, show(x)[:200]), f)
                if e[0] != "return": continue
                for rb, x in leaves(v, b, e[1]):
                    if not (x.op == "agg" and x.a[2] == "None"): continue
                    g = G.excl(G.at[rb])
                    unsup = G.formula(mk("discr", fld(var_(res, "Err"), "0")), k)
                    err = G.formula(mk("discr", res), 1)
                    empty = [G.formula(c, 0) for c in lens_of(v, "event_data")]
                    empt = [G.boolean(bin_("Eq", c, const(0))) for c in lens_of(v, "event_data")]
                    empt += [G.b.NOT(G.boolean(q[1])) for q in G.b.support(g) if q[0] == "true" and q[1].op == "bin" and q[1].a[0] == "Lt" and position_before_end(q[1])]
                    bad = G.excl(G.b.AND(g, G.b.AND(G.b.NOT(G.b.any(empty + empt)), G.b.OR(G.b.NOT(err), unsup))))
                    ctx.check(isinstance(bad, int) and bad == 0, "end of stream", n, "%s ends the stream although data is left and decoding did not fail: %s" % (n, G.b.show(bad)[:300]), f)


def position_before_end(c):
    """the stream's position is before the end of its data"""
    x, y = c.a[1], c.a[2]
    return x.op == "fld" and x.a[1] == "byte_index" and y.op == "len" and y.a[0].op == "fld" and y.a[0].a[1] == "event_data" and y.a[0].a[0] is x.a[0]


def lens_of(v, field):
    out = set()
    for b in v.rpo:
        for e in v.ev[b]:
            for x in e[1:]:
                if isinstance(x, T):
                    for q in subterms_cached(x):
                        if q.op == "len" and any(y.op == "fld" and y.a[1] == field for y in subterms_cached(q)): out.add(q)
    return out


def reach_from(S, b):
    seen, st = set(), [b]
    while st:
        for y in S[st.pop()]:
            if y not in seen: seen.add(y); st.append(y)
    return seen


def stored(v, own, at, i, tb, G, T_):
    """on every way from the decoding at tb to event i of block at on which decoding succeeded, one of `own` has been passed"""
    if at in own and own[at] < i: return True
    seen, st = set(), [tb]
    S = succmap(v)
    while st:
        x = st.pop()
        if x == at and x != tb: return False
        if x in own and x != at: continue
        for y in S[x]:
            if y in seen: continue
            f = G.phi_edge(x, y)
            if x in seen or x == tb:
                ok = G.excl(G.b.AND(f, G.formula(mk("discr", T_), 0)))
                if isinstance(ok, int) and ok == 0: continue
            seen.add(y); st.append(y)
    return at != tb or True


def leaves(v, b, x, seen=None):
    """(block, value) pairs a value seen at b stands for, through joins"""
    seen = seen if seen is not None else set()
    if x in seen: return
    seen.add(x)
    if x.op == "phi" and x in v.phis:
        for p, o in v.phis[x].items(): yield from leaves(v, p, o, seen)
    else: yield b, x


def record(ctx, v, n, f, agg, ts, accs):
    """an event handed out is the one decoded: its user and its converted event"""
    names = agg.a[3]
    def all_(field, pred, what):
        if field not in names: return
        for _, x in leaves(v, None, fld(agg, field)):
            ctx.check(pred(x), "record", "%s %s" % (n, field), "%s hands out %s %s" % (n, field, show(x)[:300]), f)
    us = {parts(t[1][3])[2] for t in ts}; ds = {parts(t[1][3])[1] for t in ts}; es = {parts(t[1][3])[3] for t in ts}
    all_("user_id", lambda x: uncasted(x) in us, "user")
    if accs is None: all_("delta", lambda x: uncasted(x) in ds, "time")
    all_("event", lambda x: any(q in es for q in subterms_cached(x)) and x.op == "fld" and x.a[0].op == "var" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0].startswith("$try"), "event")


def vectors(ctx, F):
    R = ranges(F)
    for n in VEC_READERS:
        sid = ctx.anchor(n); f = F.stubs[sid].file
        fl, v = R.flat(sid); G = R.guards(sid); S = succmap(v)
        ts = triplets(v)
        if not ctx.check(len(ts) == 1, "one decoder", n, "%s decodes events in %d places" % (n, len(ts)), f): continue
        tb, te = ts[0]; T_ = te[3]; tail, d, u, ev = parts(T_)
        loops = [c for c in sccs(set(v.rpo), S) if tb in c]
        if not ctx.check(len(loops) == 1, "event loop", n, "%s does not decode events in a loop" % n, f): continue
        C = loops[0]
        head = min(C, key=lambda x: v.pos[x])
        pushes = [(b, i, e) for b in v.rpo for i, e in enumerate(v.ev[b]) if e[0] == "call" and re.search(r"::(push|push_back)$", e[1]) and any(q.op == "agg" and re.search(r"(Game|Tracker|Message)Event$", str(q.a[0])) for q in subterms_cached(e[2][-1]))]
        pb = {b for b, _, _ in pushes}
        ctx.check(len(pushes) >= 1, "handed out", n, "%s hands out no event" % n, f)
        accs = set()
        for b, i, e in pushes:
            agg = e[2][-1]
            record(ctx, v, n, f, agg, ts, accs)
            x = fld(agg, "delta")
            if uncasted(x) is d: accs.add(None)
            elif x.op == "bin" and x.a[0] == "Add" and d in [uncasted(y) for y in x.a[1:]]:
                a = [y for y in x.a[1:] if uncasted(y) is not d]
                accs.add(a[0] if len(a) == 1 else "twice")
            else: ctx.bad("time", n, "%s hands out the time %s instead of that of the event and of those skipped before it" % (n, show(x)[:300]), f)
        conv = [e[3] for b in v.rpo for e in v.ev[b] if e[0] == "call" and e[1].startswith(("$try_from", "$try_into")) and ev in e[2]]
        ctx.check(len(conv) == 1, "one conversion", n, "%s converts an event in %d places" % (n, len(conv)), f)
        # ways around the loop: (last edge, has the event been handed out)
        def pushed(p):
            """on the ways from the head of the loop to the end of block p: always, never, or depends"""
            never = p not in pb and not any(p in reach_in(S, C, head, x) for x in pb)
            seen, st = set(), [head]
            if head in pb: return "always"
            seen.add(head)
            while st:
                for y in S[st.pop()]:
                    if y in C and y != head and y not in seen and y not in pb: seen.add(y); st.append(y)
            always = p not in seen
            return "never" if never else "always" if always else "depends"
        def way(x, p, acc, top_):
            """the carried value x on the edge leaving p"""
            if x.op == "phi" and x.a[0] in C and x.a[0] != head and x in v.phis:
                for q, o in v.phis[x].items():
                    if q in C: way(o, q, acc, top_)
                return
            w = pushed(p)
            if w == "always": ctx.check(is_const(x) and x.a[0] == 0, "time", n + " after", "%s: after an event is handed out, the time of skipped events becomes %s" % (n, show(x)[:200]), f)
            elif w == "never": ctx.check(x.op == "bin" and x.a[0] == "Add" and acc in x.a[1:] and d in [uncasted(y) for y in x.a[1:]], "time", n + " skipped", "%s: after an event is skipped, the time of skipped events becomes %s" % (n, show(x)[:200]), f)
            else: ctx.bad("time", n + " joined", "%s: the time of skipped events %s does not depend on whether the event was handed out" % (n, show(x)[:200]), f)
        backs = [p for p in v.preds[head] if p in C]
        if accs - {None}:
            for acc in accs - {None}:
                if not ctx.check(isinstance(acc, T) and acc.op == "phi" and acc.a[0] == head, "time", n + " carried", "%s adds %s to the time of an event" % (n, acc if isinstance(acc, str) else show(acc)[:200]), f): continue
                for p, o in v.phis[acc].items():
                    if p in C: way(o, p, acc, True)
                    else: ctx.check(is_const(o) and o.a[0] == 0, "time", n + " start", "%s starts with a time of %s" % (n, show(o)[:100]), f)
            ctx.check(None not in accs, "time", n + " all", "%s leaves the time of skipped events out of some event" % n, f)
        else:
            for p in backs: ctx.check(skips(v, S, C, head, pb, G, p, conv), "time", n + " none", "%s can go on without handing the event out, and loses the time it took" % n, f)
        # an event that converts is handed out
        for p in backs:
            for y in avoid(S, C, head, pb, p):
                g = G.excl(G.at[y]) if False else None
            if conv and p in avoid_set(S, C, head, pb):
                g = through(v, S, C, head, pb, G, p)
                ok = G.formula(mk("discr", conv[0]), 0)
                bad = G.excl(G.b.AND(g, ok))
                ctx.check(isinstance(bad, int) and bad == 0, "handed out", n + " all", "%s can drop an event that was decoded and converted: %s" % (n, G.b.show(bad)[:200]), f)
        # it returns its events only at the end of the input
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] != "return": continue
                for rb, x in leaves(v, b, e[1]):
                    if not (x.op == "agg" and x.a[2] == "Ok"): continue
                    ls = [q for q in all_terms(v) if q.op == "len" and tailish(v, q.a[0], T_, C)]
                    fs = [G.formula(bin_("Eq", q, const(0)), 1) for q in ls] + [G.formula(q, 0) for q in ls]
                    # a flag carried around the loop that has this value only at the end of the input
                    end = G.b.any(fs)
                    for P in v.phis:
                        if P.a[0] != head: continue
                        for k in (0, 1):
                            if all(is_const(o) and o.a[0] != k or not is_const(o) and implied(G, G.formula(o, k), end) for o in v.phis[P].values()) and any(not is_const(o) for o in v.phis[P].values()): fs.append(G.formula(P, k))
                    ctx.check(G.holds(rb, G.b.any(fs)), "end of input", n, "%s can return its events with input left: %s" % (n, G.show(rb)[:200]), f)
    ctx.atleast("time", 8, "accounting of time")
    ctx.atleast("end of input", 4, "returns of the readers")


def implied(G, f, g):
    x = G.excl(G.b.AND(f, G.b.NOT(g)))
    return isinstance(x, int) and x == 0


def tailish(v, x, T_, C):
    while x.op == "fld": x = x.a[0]
    if x.op == "phi" and x in v.phis: return any(T_ in subterms_cached(o) for o in v.phis[x].values())
    return T_ in subterms_cached(x)


def all_terms(v):
    out = set()
    for b in v.rpo:
        for e in v.ev[b]:
            for x in e[1:]:
                if isinstance(x, T): out |= subterms_cached(x)
    return out


def reach_in(S, C, head, x):
    seen, st = set(), [x]
    while st:
        for y in S[st.pop()]:
            if y in C and y != head and y not in seen: seen.add(y); st.append(y)
    return seen


def avoid_set(S, C, head, pb):
    if head in pb: return set()
    seen, st = {head}, [head]
    while st:
        for y in S[st.pop()]:
            if y in C and y != head and y not in seen and y not in pb: seen.add(y); st.append(y)
    return seen


def avoid(S, C, head, pb, p): return [p] if p in avoid_set(S, C, head, pb) else []


def through(v, S, C, head, pb, G, p):
    """condition of the ways around the loop to the end of p on which nothing was handed out"""
    at = {head: G.at[head]}
    for x in v.rpo:
        if x == head or x not in C or x in pb: continue
        fs = [G.excl(G.b.AND(at[q], G.edge(q, x))) for q in v.preds[x] if q in at and v.pos[q] < v.pos[x]]
        if fs: at[x] = G.b.any(fs)
    return at.get(p, 0)


def skips(v, S, C, head, pb, G, p, conv): return p not in avoid_set(S, C, head, pb)


def v04(ctx):
    F = ctx.F
    streams(ctx, F)
    vectors(ctx, F)
    # an unsupported kind is reported only by the conversions, after the stream has moved on
    k = unsupported_no(F)
    if k is None: raise Missing("S2ProtocolError::UnsupportedEventType is not there")
    for s in scope(F):
        if s.bk not in ("fn", "closure"): continue
        n = len(re.findall(r"UnsupportedEventType", s.raw))
        if not n or '"UnsupportedEventType"' not in s.raw: continue
        made = makes_unsupported(F, s)
        if made: ctx.check(TRYFROM.search(top(F, s).p) is not None, "kinds", top(F, s).p, "%s reports an unsupported kind of event although it is no conversion of events" % top(F, s).p, s.file)
    ctx.atleast("advance first", 12, "positions and times")
    ctx.atleast("end of stream", 2, "ends of streams")
    ctx.atleast("kinds", 3, "conversions that report unsupported kinds")


TRYFROM = re.compile(r"TryFrom<.*(GameEEventId|GameEMessageId|ReplayTrackerEEventId)> for .*::try_from$|core::convert::TryFrom<.*>>::try_from$")


def makes_unsupported(F, s):
    try: bbs = F.body(s.id).bbs
    except Exception: return True
    for bb in filter(None, bbs):
        for st in bb["s"]:
            r = st[1]
            if r[0] == "agg" and "UnsupportedEventType" in [str(x) for x in r[1:5]]: return True
    return False


CHECKS = {"D09": d09, "V04": v04}
