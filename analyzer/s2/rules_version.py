"""Version dispatch and the conversions to version-neutral records."""
import re
from ctx import RULES, Missing
from rules_decode import *
from rules_misc import payload, var_, leaves, uncasted, succmap, READERS, STATES, VEC_READERS

LIMIT = 75689
P87 = "versions::protocol87702::events::"
GAME = ("versions::protocol75689::bit_packed::GameEEventId::", P87 + "game::<impl versions::protocol87702::bit_packed::GameEEventId>::")
MSG = (P87 + "message::<impl versions::protocol87702::bit_packed::GameEMessageId>::",) * 2
TRK = (P87 + "tracker::<impl versions::protocol87702::byte_aligned::ReplayTrackerEEventId>::",) * 2
DISPATCH = {
    "versions::read_tracker_events": (TRK, "read_tracker_events"),
    "versions::read_game_events": (GAME, "read_events"),
    "versions::read_message_events": (MSG, "read_events"),
    "versions::read_details": ((P87 + "details::<impl versions::protocol87702::byte_aligned::GameSDetails>::",) * 2, "read_details"),
    "versions::read_init_data": ((P87 + "init_data::<impl versions::protocol87702::bit_packed::ReplaySInitData>::",) * 2, "read_init_data"),
    READERS["game"]: (GAME, "parse_event_triplet"),
    READERS["tracker"]: (TRK, "parse_event_pair"),
}
VERSIONED = re.compile(r"^versions::protocol\d+::.*::(read_\w+|parse_event_\w+|parse)$")

# ---------------------------------------------------------------- V01
RULES["V01"] = ("in every dispatcher each versioned decoder is called only where the path condition bounds the build to that decoder's range (up to 75689, or above), the build tested is the base build of the replay header "
                "(or the version the caller passes, which the merged stream takes from the init data), every result comes from such a call, init data is stamped with that same build, and each reader reads its own archive section")


def isbuild(x, n):
    """the base build of the replay header"""
    y = uncasted(x)
    if n in READERS.values(): return y.op == "param" and y.a[0] == 2
    if not (y.op == "fld" and y.a[1] == "m_base_build" and y.a[0].op == "fld" and y.a[0].a[1] == "m_version"): return False
    z = y.a[0].a[0]
    return z.op == "fld" and z.a[1] == "1" and any(q.op == "call" and q.a[0].endswith("read_protocol_header") for q in subterms_cached(z))


def builds(v, n):
    out = set()
    for b in v.rpo:
        for e in v.ev[b]:
            for x in e[1:]:
                if isinstance(x, T): out |= {q for q in subterms_cached(x) if isbuild(q, n)}
    return out


SECTIONS = {VEC_READERS[0]: "replay.game.events", VEC_READERS[1]: "replay.game.events", VEC_READERS[2]: "replay.message.events", VEC_READERS[3]: "replay.tracker.events",
            P87 + "details::<impl versions::protocol87702::byte_aligned::GameSDetails>::read_details": "replay.details",
            P87 + "init_data::<impl versions::protocol87702::bit_packed::ReplaySInitData>::read_init_data": "replay.initData"}


def v01(ctx):
    F = ctx.F; R = ranges(F)
    for n, ((old, new), what) in sorted(DISPATCH.items()):
        sid = ctx.anchor(n); f = F.stubs[sid].file
        fl, v = R.flat(sid)
        B = builds(v, n)
        results = {}
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] != "call" or not VERSIONED.search(e[1]): continue
                ok = e[1] in (old + what, new + what)
                if not ctx.check(ok, "decoder", "%s|%s" % (n, e[1]), "%s calls %s" % (n, e[1]), f): continue
                results[e[3]] = e[1]
                if old == new: ctx.ok("range", "%s: one decoder for all builds" % n); continue
                if e[1] == old + what: ok = any(R.at(x, sid, b, fl, v)[1] <= LIMIT for x in B)
                else: ok = any(R.at(x, sid, b, fl, v)[0] > LIMIT for x in B)
                ctx.check(ok, "range", "%s|%s" % (n, e[1]), "%s decodes with %s where the build is in [%s]" % (n, e[1], "; ".join("%s..%s" % tuple("" if abs(q) > 10**12 else q for q in R.at(x, sid, b, fl, v)) for x in B)), f)
        if old != new:
            for w in (old, new): ctx.check(w + what in results.values(), "both", "%s|%s" % (n, w), "%s never decodes with %s" % (n, w + what), f)
        ctx.check(bool(results), "results", n, "%s calls no versioned decoder" % n, f)
        if n in READERS.values(): continue
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] != "return": continue
                for rb, x in leaves(v, b, e[1]):
                    if x.op == "agg" and x.a[2] == "Err": continue
                    src = None
                    if x in results: src = x
                    elif n.endswith("read_init_data") and x.op == "agg" and x.a[2] == "Ok":
                        y = x.a[4][0]
                        if y.op == "call" and y.a[0] == "init_data::InitData::with_version":
                            ctx.check(isbuild(y.a[1][1], n), "stamp", n, "%s stamps the init data with %s" % (n, show(y.a[1][1])[:200]), f)
                            src = data_of(v, y.a[1][0], results)
                        elif y.op == "agg" and str(y.a[0]).endswith("InitData"):
                            ctx.check(isbuild(fld(y, "version"), n), "stamp", n, "%s stamps the init data with %s" % (n, show(fld(y, "version"))[:200]), f)
                            src = data_of(v, fld(y, "sync_lobby_state"), results)
                        else: src = data_of(v, y, results); ctx.bad("stamp", n, "%s does not stamp the init data with the build: %s" % (n, show(y)[:200]), f)
                    elif x.op == "agg" and x.a[2] == "Ok": src = data_of(v, x.a[4][0], results)
                    ctx.check(src is not None, "result", n, "%s returns %s, which no versioned decoder produced" % (n, show(x)[:200]), f)
    # the stamp itself
    n = "init_data::InitData::with_version"; sid = ctx.anchor(n)
    fl, v = R.flat(sid)
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] != "return": continue
            for rb, x in leaves(v, b, e[1]):
                ctx.check(uncasted(fld(x, "version")).op == "param" and uncasted(fld(x, "version")).a[0] == 2, "stamp", n, "%s sets the version to %s" % (n, show(fld(x, "version"))[:100]), F.stubs[sid].file)
                ctx.check(keeps(x, "sync_lobby_state"), "stamp", n + " rest", "%s changes the lobby state" % n, F.stubs[sid].file)
    ctx.atleast("stamp", 3, "stamping of init data")
    # nothing else decides on versions or changes the stamp
    for s in decode_scope(F) + [s for s in scope(F) if s.file.startswith("src/state/")]:
        if s.bk != "fn" or "version" not in s.raw or s.p == n: continue
        try: fl, v = R.flat(s.id)
        except Exception: continue
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] == "store" and e[1].op == "fld" and e[1].a[1] == "version" or e[0] == "lstore" and lpath(e[2]) == "version":
                    ctx.bad("stamp", s.p + " other", "%s changes a version" % s.p, s.file)
    # the merged stream passes on the version of its init data, and the readers of streams the one they are given
    mn = "<state::SC2EventIterator as core::iter::traits::iterator::Iterator>::next"
    sid = ctx.anchor(mn); fl, v = R.flat(sid)
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] == "call" and e[1] in STATES.values():
                x = e[2][1]
                ctx.check(x.op == "fld" and x.a[1] == "version" and x.a[0].op == "fld" and x.a[0].a[1] == "init_data", "passed", "%s|%s" % (mn, e[1]), "%s reads events of version %s" % (mn, show(x)[:200]), F.stubs[sid].file)
    for k, n in sorted(STATES.items()):
        sid = ctx.anchor(n); fl, v = R.flat(sid)
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] == "call" and e[1] == READERS[k]: ctx.check(e[2][1].op == "param" and e[2][1].a[0] == 2, "passed", "%s|%s" % (n, e[1]), "%s reads events of version %s" % (n, show(e[2][1])[:200]), F.stubs[sid].file)
    ctx.atleast("passed", 4, "versions handed on")
    # sections
    for n, sec in sorted(SECTIONS.items()):
        sid = ctx.anchor(n); fl, v = R.flat(sid)
        got = {e[2][1].a[0] if is_const(e[2][1]) else show(e[2][1]) for b in v.rpo for e in v.ev[b] if e[0] == "call" and e[1].endswith("read_mpq_file_sector")}
        ctx.check(got == {sec}, "section", n, "%s reads the section %s instead of %s" % (n, sorted(got), sec), F.stubs[sid].file)
    n = "state::SC2EventIterator::new"; sid = ctx.anchor(n); fl, v = R.flat(sid)
    for b in v.rpo:
        for e in v.ev[b]:
            if e[0] == "return":
                for rb, x in leaves(v, b, e[1]):
                    if not (x.op == "agg" and x.a[2] == "Ok"): continue
                    for fl_, sec in (("tracker_iterator_state", "replay.tracker.events"), ("game_iterator_state", "replay.game.events")):
                        y = fld(x.a[4][0], fl_)
                        got = {q.a[1][1].a[0] for q in subterms_cached(y) if q.op == "call" and q.a[0].endswith("read_mpq_file_sector") and is_const(q.a[1][1])}
                        ctx.check(got == {sec}, "section", "%s %s" % (n, fl_), "%s streams %s from section %s" % (n, fl_, sorted(got)), F.stubs[sid].file)
    ctx.atleast("section", 8, "archive sections")
    ctx.atleast("range", 7, "calls of versioned decoders")
    ctx.atleast("decoder", 7, "calls of versioned decoders")


def data_of(v, x, results):
    for q in subterms_cached(x):
        if q in results: return q
        if q.op == "phi" and any(o in results for o in v.phis.get(q, {}).values()): return q
    return None


def keeps(x, field):
    y = fld(x, field)
    return y.op == "fld" and y.a[1] == field and y.a[0].op == "param"


CHECKS = {"V01": v01}


# ---------------------------------------------------------------- V02, V03
RULES["V02"] = ("for each conversion from a protocol-specific to a version-neutral record, the normal form of the result - which source place each field holds, under which alternatives of the source - "
                "equals the transcribed correspondence (spec/conversions.json); loops convert every element of their source")
RULES["V03"] = ("for each conversion, the value or label given for every alternative of a protocol-specific enumeration, and the event kind built from every decoded event kind, "
                "equal the transcribed correspondence (spec/conversions.json)")


def pairs(F):
    """conversions from protocol records: 'from -> to' -> function id"""
    out = {}
    for (a, b), i in F.from_impls.items():
        if i in F.stubs and "versions::" in F.stubs[i].file.replace("src/", "").replace("/", "::") and re.search(r"\bprotocol\d+\b", F.stubs[i].p.split(" for ")[0]):
            m = re.search(r"(?:From|TryFrom)<(.*)> for (.*)>::\w+$", F.stubs[i].p)
            out["%s -> %s" % (m.group(1), m.group(2))] = i
    return out


def splitpath(p):
    """(event kind, field)"""
    m = re.match(r"^((?:::\w+(?:\.0)?)*)\.?(.*)$", p)
    return m.group(1), m.group(2)


def split_conv(T_):
    """what V02 and what V03 decides of a normal form"""
    f, k = {}, {}
    for p, w in T_.items():
        kind, field = splitpath(p)
        if kind: k.setdefault("kinds", set()).add(kind)
        if w.startswith("{") and (field == "" or "->" in w and not w.startswith("{None -> ")): k[p] = w
        else: f[field] = f[field] + " or " + w if field in f else w
    if "kinds" in k: k["kinds"] = " ".join(sorted(k["kinds"]))
    return f, k


def conv_spec():
    import os, json
    from ctx import SPEC
    return json.load(open(os.path.join(SPEC, "conversions.json")))


def conv_tables(ctx):
    from canon import canon_job
    F = ctx.F; ctx.notes_spec = True
    P = pairs(F); S = conv_spec()
    ids = {n: P[n] for n in S if n in P}
    back = {i: n for n, i in ids.items()}
    got = {}
    for i, r, err in pmap(F, [], canon_job, sorted(ids.values())): got[back[i]] = (r[0] if r else None, err)
    for n in sorted(S):
        if n not in P: yield n, S[n], None, "conversion %s is not there any more" % n, ""; continue
        ctx.functions.add(F.stubs[P[n]].p)
        r, err = got[n]
        yield n, S[n], r, ("cannot be analysed: %s" % err if r is None else None), F.stubs[P[n]].file


def v02(ctx):
    for n, want, r, err, f in conv_tables(ctx):
        if err: ctx.bad("conversion", n, err, f); continue
        (wf, wk), (hf, hk) = split_conv(want), split_conv(r)
        for p in sorted(set(wf) | set(hf)):
            ctx.check(wf.get(p) == hf.get(p), "field", "%s|%s" % (n, p), "%s: %s holds %s instead of %s" % (n, p or "the result", hf.get(p, "nothing"), wf.get(p, "nothing")), f)
    ctx.atleast("field", 330, "fields of version-neutral records")


def v03(ctx):
    for n, want, r, err, f in conv_tables(ctx):
        if err: ctx.bad("conversion", n, err, f); continue
        (wf, wk), (hf, hk) = split_conv(want), split_conv(r)
        for p in sorted(set(wk) | set(hk)):
            a, b = alternatives(wk.get(p)), alternatives(hk.get(p))
            for x in sorted(set(a) | set(b)):
                ctx.check(a.get(x) == b.get(x), "alternative", "%s|%s|%s" % (n, p, x), "%s: %s becomes %s instead of %s" % (n, x, b.get(x, "nothing"), a.get(x, "nothing")), f)
    ctx.atleast("alternative", 300, "alternatives of enumerations and event kinds")


def alternatives(w):
    if w is None: return {}
    m = re.match(r"^\{(.*)\} by (.*)$", w)
    if not m: return {"the result": w}
    out = {}
    for part in m.group(1).split("; "):
        k, _, v = part.partition(" -> ")
        for x in k.split(" or "): out[x] = v
    return out


CHECKS.update({"V02": v02, "V03": v03})
