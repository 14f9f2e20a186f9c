"""Exported rows, their clocks, the export kinds, the two processing modes and the writing of files.

All five rules compare the normal form (canon.py) of what the current tree computes - which source value ends up in which place, under
which alternatives of the source - with a transcribed correspondence (spec/columns.json), or of one mode with the other."""
import json, os, re
from ctx import RULES, Missing, SPEC
from rules_decode import *
from canon import Canon, short
from rules_misc import leaves

ROW = re.compile(r"(FlatRow|::PlayerLobbyDetails)$")
ROWTY = re.compile(r"\w*FlatRow$|^PlayerLobbyDetails$")
DETAILS = "details::<impl core::convert::TryFrom<&init_data::InitData> for alloc::vec::Vec<details::PlayerLobbyDetails>>::try_from"
BASE_ROWS = [
    "game_events::arrow_store::cmd_event_flat_row::CmdTargetPointEventFlatRow::new", "game_events::arrow_store::cmd_event_flat_row::CmdTargetUnitEventFlatRow::new",
    "tracker_events::arrow_store::unit_born_event_flat_row::UnitBornEventFlatRow::from_unit_born", "tracker_events::arrow_store::unit_born_event_flat_row::UnitBornEventFlatRow::from_unit_done",
    "tracker_events::arrow_store::unit_born_event_flat_row::UnitBornEventFlatRow::from_unit_type_change", "tracker_events::arrow_store::unit_died_event_flat_row::UnitDiedEventFlatRow::new",
    "tracker_events::arrow_store::player_stats_flat_row::PlayerStatsFlatRow::new", "tracker_events::arrow_store::upgrade_event_flat_row::UpgradeEventFlatRow::new",
    "<details::PlayerLobbyDetailsFlatRow as core::convert::From<details::PlayerLobbyDetails>>::from", DETAILS,
    "init_data::arrow_store::<impl core::convert::From<&init_data::InitData> for alloc::vec::Vec<init_data::arrow_store::UserInitDataFlatRow>>::from"]
META = ["details::Details::new", "details::Details::set_metadata", "<details::Details as core::convert::TryFrom<&init_data::InitData>>::try_from",
        "init_data::InitData::new", "init_data::InitData::set_metadata", "<init_data::InitData as core::convert::TryFrom<(std::path::PathBuf, u64)>>::try_from"]
CLOCKS = ["convert_tracker_loop_to_seconds", "convert_game_loop_to_seconds"]
COLLECT = "state::SC2EventIterator::collect_into_%s_flat_rows"
COLLECTORS = [COLLECT % k for k in ("player_stats", "upgrades", "unit_born", "unit_died", "game_cmd_target_points", "game_cmd_target_units")]
A = "arrow_store::ArrowIpcTypes::"
HANDLERS = [A + k for k in ("handle_write_snapshot", "handle_tracker_events", "handle_game_events", "handle_read_once_write_all", "handle_details_ipc_cmd")]
MODES = {A + "handle_arrow_ipc_cmd": 5, A + "handle_tracker_events": 5, A + "handle_game_events": 5, A + "handle_write_snapshot": 4, "dir_stats::scan_path": 3}
W = "arrow_store::ipc_writer::"
WRITERS = [W + k for k in ("write_batches", "open_arrow_mutex_writer", "write_to_arrow_mutex_writer", "close_arrow_mutex_writer")]
EXTERNAL = re.compile(r"fs::File::create|FileWriter(::)?<.*>::(try_new\w*|write|finish|into_inner)$|FileWriter.*::(try_new|write|finish)|Mutex<T>::(lock|into_inner|try_lock|get_mut|new)$|Mutex.*::(lock|into_inner|try_lock)$|^\$iter_(take|skip|step_by|rev|take_while|map_while)|try_into_arrow$|::(truncate|retain|dedup\w*|sort\w*|drain|pop|remove|swap_remove)$")


def other_conversions(n):
    """conversions that only change the representation; those that read a file or build rows stay visible"""
    return "InitData" not in n.split("<", 1)[1].split(",")[0]


def wanted(F, n):
    if EXTERNAL.search(n): return True
    return (n in base_functions() and (n in F.by_pretty)) or n in WRITERS


def export_job(F, names, sid):
    fl, v = unary(F, [], sid)
    C = Canon(F, fl, v, other_conversions, split=True)
    own = F.stubs[sid].p
    row = lambda n: bool(ROW.search(n))
    out = {"rows": {}, "calls": {}, "kinds": {}}
    for b, t, tab in C.built(row):
        k = t.a[0].split("::")[-1]
        if tab not in out["rows"].setdefault(k, []): out["rows"][k].append(tab)
    C.opaque = row; C.memo = {}
    out["result"] = C.result_table()
    modes = [("", None)]
    if own in MODES: modes = [("serial", 1), ("parallel", 0)]
    for name, val in modes:
        rows = set()
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] != "call" or not (wanted(F, e[1]) or CONVERSION.match(e[1])): continue
                f = restrict(C, C.G.at[b], own, val)
                if isinstance(f, int) and f == 0: continue
                C.memo = {}; C.care = f
                args = [C.val(q) if isinstance(q, T) else str(q) for q in e[2]]
                if e[1].startswith(A) and args: args[0] = kind_name(F, args[0])
                C.care = 1; C.memo = {}
                tag = loops(C, b)
                rows.add("%s(%s)%s if %s" % (e[1] if CONVERSION.match(e[1]) else short(e[1]), ", ".join(args), tag, C.condition(C.b.exists(f, list(getattr(C, "modes", ()))) if val is not None else f) or "always"))
        out["calls"][name] = sorted(rows)
        res = []
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] == "return":
                    f = restrict(C, C.G.at[b], own, val)
                    if isinstance(f, int) and f == 0: continue
                    C.care = f; C.memo = {}
                    C.rows(b, e[1], f, "", res)
        C.memo = {}; C.care = 1
        by = {}
        for p, c, w in res: by.setdefault(p, []).append((c, w))
        care = restrict(C, 1, own, val)
        out.setdefault("results", {})[name] = {p: C.tabulate(r, care) for p, r in by.items()}
    return out


CONVERSION = re.compile(r"^\$(try_)?(from|into)<.*(FlatRow|InitData|PlayerLobbyDetails|Details).*>$")


def kind_name(F, w):
    """a constant export kind"""
    m = re.match(r"^'bytes\[(\d+)\]'$", w)
    a = F.adts.get("s2protocol::arrow_store::ArrowIpcTypes")
    return a["variants"][int(m.group(1))]["name"] if m and a and int(m.group(1)) < len(a["variants"]) else w


def restrict(C, f, own, val):
    """where the mode parameter of the function has this value"""
    if val is None: return f
    key = "$%d" % MODES[own]
    if not hasattr(C, "modes"):
        C.modes = set()
        for x in C.v.rpo:
            for at in C.b.support(C.G.at[x]):
                if C.named(at)[0][1] == key: C.modes.add(at)
    for at in sorted(C.modes, key=str):
        k, i = C.named(at)
        yes = bool(val) if k[0] == "cond" else (i == val if i is not None else False)
        x = C.b.var(at)
        f = C.b.AND(f, x if yes else C.b.NOT(x))
    return f


def loops(C, b):
    """how the loops around a block are walked"""
    tag = ""
    for head in sorted({x for x in C.v.rpo if any(C.v.pos[p] >= C.v.pos[x] for p in C.v.preds[x])}, key=lambda q: C.v.pos[q]):
        cyc = C.cycle(head)
        own = [(k, l) for k, l in C.iters.items() if any(x in cyc for x, _ in l)]
        if b not in cyc:
            # done for one element, and no further one is looked at
            if any(C.b.implies(C.G.at[b], C.b.NOT(C.G.formula(mk("discr", e[3]), 0))) for k, l in own for _, e in l): tag += " once"
            continue
        if C.escapes(cyc, own): tag += " partial"
        for x in sorted(cyc, key=lambda q: C.v.pos[q]):
            for e in C.v.ev[x]:
                if e[0] == "call" and e[1].startswith("$iter_"): tag += " %s(%s)" % (e[1][6:], ", ".join(C.val(q) for q in e[2]))
    return tag


_T = {}


def export_names(): return BASE_ROWS + META + CLOCKS + COLLECTORS + HANDLERS + [A + "handle_arrow_ipc_cmd", A + "schema", "dir_stats::scan_path", "dir_stats::try_read_init_data"] + WRITERS


def export_tables(F):
    if id(F) in _T: return _T[id(F)]
    base = base_functions()
    ids = {}
    for n in sorted(set(export_names())):
        i = F.by_pretty.get(n)
        if i: ids[getattr(i[0] if isinstance(i, list) else i, "id", i[0] if isinstance(i, list) else i)] = n
    # whoever else builds rows
    for s in scope(F):
        if s.bk == "fn" and s.id not in ids and not s.exp and not F.impl_exp(s.id) and re.search(r"FlatRow|PlayerLobbyDetails", s.raw): ids[s.id] = s.p
    out = {}
    for i, r, err in pmap(F, [], export_job, sorted(ids)): out[ids[i]] = (r, err, F.stubs[i].file)
    _T[id(F)] = out
    return out


def table(ctx, n):
    ctx.anchor(n)
    r, err, f = export_tables(ctx.F)[n]
    if r is None: raise Missing("%s cannot be analysed: %s" % (n, err))
    return r, f


def columns_spec(): return json.load(open(os.path.join(SPEC, "columns.json")))


def diff(ctx, kind, n, what, want, have, f):
    for x in sorted(set(want) | set(have)):
        if x in want and x in have: ctx.ok(kind, "%s|%s" % (n, x))
        elif x in want: ctx.bad(kind, "%s|lacks|%s" % (n, x), "%s no longer has: %s" % (what, x), f)
        else: ctx.bad(kind, "%s|extra|%s" % (n, x), "%s has: %s" % (what, x), f)


# ---------------------------------------------------------------- X01
RULES["X01"] = ("wherever an exported row is built, the normal form of each column equals the transcribed correspondence (spec/columns.json) under the conditions of that place, rows are built nowhere else, "
                "the rows a collector returns are those built from each event of its kind, and the replay identification copied into the rows is set from the file read")


def x01(ctx):
    F = ctx.F; S = columns_spec(); ctx.notes_spec = True
    for n in BASE_ROWS:
        r, f = table(ctx, n); want = S[n]
        for ty in sorted(set(want["rows"]) | set(r["rows"])):
            w = want["rows"].get(ty, [])
            if not w: ctx.bad("row", "%s|%s" % (n, ty), "%s builds a %s" % (n, ty), f); continue
            have = r["rows"].get(ty, [])
            if not have: ctx.bad("row", "%s|%s" % (n, ty), "%s does not build a %s" % (n, ty), f); continue
            for h in have:
                for c in sorted(set(w[0]) | set(h)):
                    ctx.check(any(x.get(c) == h.get(c) for x in w), "column", "%s|%s" % (n, c), "%s: column %s holds %s instead of %s" % (n, c, h.get(c, "nothing"), " or ".join(sorted({x.get(c, "nothing") for x in w}))), f)
        ctx.check(r["result"] == want["result"], "emission", n, "%s returns %s instead of %s" % (n, text_of(r["result"]), text_of(want["result"])), f)
    for n in META + COLLECTORS:
        r, f = table(ctx, n); want = S[n]
        for p in sorted(set(want["result"]) | set(r["result"])):
            ctx.check(want["result"].get(p) == r["result"].get(p), "collected" if n in COLLECTORS else "identification", "%s|%s" % (n, p), "%s: %s is %s instead of %s" % (n, p or "the result", r["result"].get(p, "nothing"), want["result"].get(p, "nothing")), f)
    for n, (r, err, f) in sorted(export_tables(F).items()):
        if n in S or part_of_callers(F, n): continue
        if r is None: ctx.bad("row", n, "%s cannot be analysed: %s" % (n, err), f)
        else: ctx.check(not r["rows"], "row", n, "%s builds %s" % (n, ", ".join(sorted(r["rows"]))), f)
    ctx.atleast("column", 180, "columns of exported rows"); ctx.atleast("emission", 11, "row builders"); ctx.atleast("collected", 6, "collectors"); ctx.atleast("identification", 20, "identification of the replay")


def part_of_callers(F, n):
    """a helper that is looked at as part of the functions that call it"""
    from rules_misc import callgraph
    i = F.by_pretty.get(n); i = next(iter(i)) if isinstance(i, (list, set, tuple)) else i
    i = getattr(i, "id", i)
    if n in base_functions() or i is None: return False
    known = {q for q in export_tables(F)}
    by = set()
    for c, l in callgraph(F).items():
        if i not in l or c == i: continue
        while F.stubs[c].bk == "closure" and F.stubs[c].parent in F.stubs: c = F.stubs[c].parent
        by.add(F.stubs[c].p)
    return bool(by) and by <= known


def text_of(t): return "; ".join("%s: %s" % (p, w) if p else w for p, w in sorted(t.items()))


# ---------------------------------------------------------------- X02
RULES["X02"] = ("the normal form of each seconds column is the clock function of that row's event stream applied to the value of the row's loop column, "
                "the loop value a collector passes is the one of the event, and the clock functions have their transcribed normal form")


def x02(ctx):
    F = ctx.F; S = columns_spec(); ctx.notes_spec = True
    for n in BASE_ROWS:
        r, f = table(ctx, n)
        for ty, rows in sorted(r["rows"].items()):
            for h in rows:
                if "ext_replay_seconds" not in h and "ext_replay_loop" not in h: continue
                clock = CLOCKS[0] if n.startswith("tracker_events::") else CLOCKS[1]
                ctx.check(h.get("ext_replay_seconds") == "%s(%s)" % (clock, h.get("ext_replay_loop")), "clock", "%s|%s" % (n, ty), "%s: the seconds are %s while the loop is %s" % (n, h.get("ext_replay_seconds"), h.get("ext_replay_loop")), f)
                ctx.check(re.match(r"^\$\d+$", h.get("ext_replay_loop") or "") is not None, "loop", "%s|%s" % (n, ty), "%s: the loop column holds %s" % (n, h.get("ext_replay_loop")), f)
    for n in CLOCKS:
        r, f = table(ctx, n)
        ctx.check(r["result"] == S[n]["result"], "clock function", n, "%s computes %s instead of %s" % (n, text_of(r["result"]), text_of(S[n]["result"])), f)
    for n in COLLECTORS:
        r, f = table(ctx, n)
        want = "tracker_loop" if "game_cmd" not in n else "game_loop"
        for c in [c for k in r["calls"].values() for c in k if "FlatRow::" in c.split("(")[0]]:
            ctx.check(re.search(r"each \$1\.event_type@(Tracker\.tracker_loop|Game\.game_loop)", c) is not None and "." + want in c, "event time", "%s|%s" % (n, c.split("(")[0]), "%s does not pass the time of the event: %s" % (n, c[:300]), f)
    ctx.atleast("clock", 8, "rows with times"); ctx.atleast("event time", 8, "rows built by collectors")


# ---------------------------------------------------------------- X03
RULES["X03"] = ("the schema, the collector, the rows and the file name selected for each export kind equal the transcribed correspondence (spec/columns.json), in every export path and mode, and file names are distinct")


def x03(ctx):
    F = ctx.F; S = columns_spec(); ctx.notes_spec = True
    for n in [A + "schema"] + HANDLERS:
        r, f = table(ctx, n); want = S[n]
        for m in sorted(set(r["calls"]) | set(want["calls"])):
            diff(ctx, "export step", n + ("|" + m if m else ""), n + (" (%s)" % m if m else ""), want["calls"].get(m, []), r["calls"].get(m, []), f)
        if n == A + "schema": ctx.check(r["result"] == want["result"], "schema", n, "%s gives %s" % (n, text_of(r["result"])[:800]), f)
    r, f = table(ctx, HANDLERS[0])
    names = [x for m in r["calls"].values() for c in m for x in re.findall(r"'([\w./-]+\.\w+)'", c)]
    for m, cs in r["calls"].items():
        names = [x for c in cs for x in re.findall(r"'([\w./-]+\.\w+)'", c)]
        ctx.check(len(names) == len(set(names)) and len(names) >= 7, "file names", m, "%s writes %s" % (HANDLERS[0], names), f)
    ctx.atleast("export step", 50, "steps of exports"); ctx.atleast("file names", 1, "snapshots")


# ---------------------------------------------------------------- X04
RULES["X04"] = "with the mode parameter set either way, the calls made (in normal form, with their conditions and the way the loops around them are walked) and the results are the same"


def x04(ctx):
    F = ctx.F
    for n in sorted(MODES):
        r, f = table(ctx, n)
        a, b = r["calls"]["serial"], r["calls"]["parallel"]
        mode = "$%d" % MODES[n]
        for x in sorted(set(a) | set(b)):
            if x in a and x in b: ctx.ok("same in both modes", "%s: %s" % (n, x[:200]))
            else: ctx.bad("same in both modes", "%s|%s|%s" % (n, "serial" if x in a else "parallel", x), "%s: only the %s mode does %s" % (n, "serial" if x in a else "parallel", x), f)
        ctx.check(r["results"]["serial"] == r["results"]["parallel"], "same result", n, "%s returns %s when serial and %s when parallel" % (n, text_of(r["results"]["serial"]), text_of(r["results"]["parallel"])), f)
    ctx.atleast("same in both modes", 20, "steps"); ctx.atleast("same result", 5, "functions with a mode")


# ---------------------------------------------------------------- X05
RULES["X05"] = ("a writer function returns success only where the path condition includes the success of creating, writing and finishing; the batch given is what is written, through the locked writer; "
                "an export path returns success only as the result of finishing its file; an error of lock, create, write or finish leads to a returned error")
MUST = {W + "write_batches": ["File::create", "FileWriter::try_new", "FileWriter::write", "FileWriter::finish"], W + "open_arrow_mutex_writer": ["File::create", "FileWriter::try_new"],
        W + "close_arrow_mutex_writer": ["Mutex::lock", "FileWriter::finish"], W + "write_to_arrow_mutex_writer": ["Mutex::lock", "FileWriter::write"],
        A + "handle_tracker_events": ["ipc_writer::open_arrow_mutex_writer", "ipc_writer::close_arrow_mutex_writer"], A + "handle_game_events": ["ipc_writer::open_arrow_mutex_writer", "ipc_writer::close_arrow_mutex_writer"],
        A + "handle_details_ipc_cmd": ["ipc_writer::write_batches"], A + "handle_read_once_write_all": ["ipc_writer::write_batches"],
        A + "handle_write_snapshot": ["ArrowIpcTypes::handle_details_ipc_cmd", "ArrowIpcTypes::handle_tracker_events", "ArrowIpcTypes::handle_game_events"], A + "handle_arrow_ipc_cmd": ["ArrowIpcTypes::handle_write_snapshot"]}


def succeeded(C, f, t):
    """the condition includes that this call succeeded"""
    d = mk("discr", t)
    g = C.b.restrict(C.G.excl(f), {("val", d, 0): False, ("val", d, 1): True})
    return isinstance(g, int) and g == 0 or C.G.excl(g) == 0


def x05(ctx):
    F = ctx.F; S = columns_spec(); ctx.notes_spec = True
    for n, must in sorted(MUST.items()):
        sid = ctx.anchor(n); f = F.stubs[sid].file
        fl, v = unary(F, [], sid); C = Canon(F, fl, v, other_conversions, split=True)
        if n in WRITERS:
            r, _ = table(ctx, n)
            diff(ctx, "writing step", n, n, S[n]["calls"][""], r["calls"][""], f)
        calls = [(b, e) for b in v.rpo for e in v.ev[b] if e[0] == "call" and short(e[1]) in must]
        for m in must: ctx.check(any(short(e[1]) == m for _, e in calls), "step", "%s|%s" % (n, m), "%s does not call %s" % (n, m), f)
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] != "return": continue
                for rb, x in leaves(v, b, e[1]):
                    x = C.find(x)
                    if x.op == "agg" and x.a[2] in ("Err", "None"): continue
                    at = C.G.at[rb]
                    for cb, c in calls:
                        if x is c[3]: ctx.ok("success", "%s returns the result of %s" % (n, short(c[1]))); continue
                        ctx.check(succeeded(C, at, c[3]), "success", "%s|%s" % (n, short(c[1])), "%s can report success although %s failed or was not called" % (n, short(c[1])), f)
        # errors are handed on
        for cb, c in calls:
            d = mk("discr", c[3])
            for b in v.rpo:
                for e in v.ev[b]:
                    if e[0] != "return": continue
                    for rb, x in leaves(v, b, e[1]):
                        if C.find(x) is c[3]: ctx.ok("reported", "%s hands on the result of %s" % (n, short(c[1]))); continue
                        g = C.G.excl(C.b.AND(C.G.at[rb], C.b.var(("val", d, 1))))
                        if g == 0: continue
                        y = C.find(x)
                        ctx.check(v.pos[rb] < v.pos[cb] or y.op == "agg" and y.a[2] == "Err", "reported", "%s|%s" % (n, short(c[1])), "%s returns %s when %s fails" % (n, show(y)[:100], short(c[1])), f)
        # the writer is locked while it is used
        for cb, c in calls:
            if n in (W + "write_to_arrow_mutex_writer", W + "close_arrow_mutex_writer") and short(c[1]).startswith("FileWriter::"):
                ctx.check(any(q.op == "call" and short(q.a[0]) == "Mutex::lock" for q in subterms_cached(c[2][0])), "locked", "%s|%s" % (n, short(c[1])), "%s uses the writer without holding its lock" % n, f)
    ctx.atleast("step", 19, "steps of writing"); ctx.atleast("success", 20, "successful steps"); ctx.atleast("locked", 2, "uses of the shared writer"); ctx.atleast("reported", 10, "failures")


CHECKS = {"X05": x05, "X01": x01, "X02": x02, "X03": x03, "X04": x04}
