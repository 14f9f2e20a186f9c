"""Functions whose whole result and effect is transcribed: numbers from bits, map geometry, directory scans and statistics, balance data files"""
import json, os, re
from rules_state import ident, state_flat, NONE, Report, closure_text, RULES, SPEC
from rules_decode import pmap
from canon import Canon, short, subterms_cached
from ctx import Missing
CHECKS = {}

B, V, H, P = "bit_packed_decoder::", "versioned_decoder::", "cache_handles::", "cache_handles::map::coords::"
J = "game_events::ability::balance_data::"
GEO = r"cache_handles::map.*"


def conv(a, b): return "<%s as core::convert::From<%s>>::from" % (a, b)


# (property, function, how it is read, what may be looked into, part of the result)
ITEMS = [("D10", B + n, "equations", None, None) for n in ("rtake_n_bits", "take_n_bits_into_i64", "take_bit_array", "byte_align", "take_unaligned_byte", "take_fourcc", "take_null", "parse_packed_int", "parse_bool")]
ITEMS += [("D10", "parse_vlq_int", "equations", None, None)]
ITEMS += [("D10", V + n, "equations", None, None) for n in ("tagged_bitarray", "tagged_blob", "tagged_vlq_int", "tagged_bool", "tagged_fourcc")]
ITEMS += [("D10", V + "validate_%s_tag" % n, "equations", None, None) for n in ("array", "bitarray", "blob", "choice", "opt", "struct", "bool", "fourcc", "int")]
ITEMS += [("M01", H + "map_info::MapInfo::" + n, "equations", GEO, None) for n in ("cell_dim_map", "terrain_dim_map", "cell_dim_playable", "terrain_dim_playable", "cell_left_bottom", "cell_right_top", "terrain_left_bottom", "terrain_right_top")]
ITEMS += [("M01", conv(P + a, P + b), "equations", GEO, None) for a, b in (("MapTerrainCoord", "MapCoord"), ("MapCoord", "MapTerrainCoord"), ("MapCellCoord", "MapCoord"), ("MapCoord", "MapCellCoord"))]
ITEMS += [("M01", P + n + "::new", "leaf", None, None) for n in ("MapCoord", "MapTerrainCoord", "MapCellCoord", "PlayableTerrainCoord", "PlayableCellCoord")]
ITEMS += [("M01", P + "PlayableTerrainCoord::from_map_terrain", "equations", GEO, None)]
ITEMS += [("M01", H + n + "::from_mpq", "leaf", None, None) for n in ("map_info::MapInfo", "t3_height_map::T3HeightMap", "document_header::DocumentHeader")]
ITEMS += [("X07", n, "leaf", None, None) for n in ("dir_stats::scan_path", "dir_stats::SC2ReplaysDirStats::from_directory", "dir_stats::try_read_init_data", "details::Details::get_player_names")]
ITEMS += [("A04", J + n, "leaf", None, None) for n in ("traverse_versioned_balance_abilities", "json_handler::read_balance_data_from_json_dir", "json_handler::read_balance_data_from_included_assets")]
ITEMS += [("A04", J + "json_handler::write_balance_data_to_json", "calls create_dir_all|File::create|to_writer", None, None)]
ITEMS += [("X06", "arrow_store::ArrowIpcTypes::handle_arrow_ipc_cmd", "calls handle_write_snapshot", None, None)]
ITEMS += [("X06", "get_matching_files", "leaf", None, None)]
ITEMS += [("A02", H + "document_header::DocumentHeader::set_field_by_name", "leaf", None, None)]
ITEMS += [("U02", "common::Vec3D::" + n, "leaf", None, None) for n in "xyz"] + [("U02", conv("common::Vec3D", "game_events::GameSMapCoord3D"), "leaf", None, None)]
ITEMS += [("X01", "details::" + n, "leaf", None, None) for n in ("make_string_from_hex_chars", "parse_hex_chars_to_u8_char")]
ITEMS += [("X01", "tracker_events::player_stats::PlayerStats::as_prop_name_value_vec", "pairs", None, None)]
ITEMS += [("E01", "state::SC2EventIterator::" + n, "leaf", None, None) for n in ("get_tracker_loop", "get_game_loop")] + [("E01", "state::SC2EventIteratorItem::" + n, "leaf", None, None) for n in ("is_game_event", "is_tracker_event", "new")]
ITEMS += [("U05", "state::UnitChangeHint::variant_name", "leaf", None, None)]
U = "<state::SC2Unit as core::cmp::"
ITEMS += [("U08", U + n, "leaf", None, None) for n in ("Ord>::cmp", "PartialEq>::eq", "PartialOrd>::partial_cmp")]
ITEMS += [("U09", "state::unit_props::get_unit_sized_color", "leaf", "state::unit_props::user_color$", None), ("U09", "state::unit_props::user_color", "leaf", None, None), ("U09", "state::SC2Unit::set_unit_props", "leaf", None, None)]
ITEMS += [("X08", n, "leaf", None, None) for n in ("init_data::InitData::new", "init_data::InitData::set_metadata", "init_data::InitData::with_version", "details::Details::new", "details::Details::set_metadata",
          "<init_data::InitData as core::convert::TryFrom<(std::path::PathBuf, u64)>>::try_from", "<details::Details as core::convert::TryFrom<&init_data::InitData>>::try_from", "read_file", "read_mpq", "transform_to_naivetime")]


def job(F, names, key):
    prop, n, how, inside, only = key
    fl, v = state_flat(F, ident(F, n), None, re.compile(inside) if inside else NONE, re.compile(inside) if inside else None)
    C = Canon(F, fl, v); C.narrow = True
    C.closure = lambda c: closure_text(F, c)
    C.whole_numbers = True
    C.opaque = lambda t: t.endswith("CompressedNamedArchive")
    if how.startswith("calls "):
        C.lists = True
        out = []
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] != "call" or not re.search(how[6:], e[1]): continue
                C.memo = {}; C.care = 1
                c = C.condition(C.G.at[b])
                out.append("%s(%s)%s" % (short(e[1]), ", ".join(C.val(q) for q in e[2]), " if " + c if c else ""))
        return {"result": {}, "calls": out, "blocks": len(v.rpo)}
    if how == "pairs":
        out = set()
        for b in v.rpo:
            for e in v.ev[b]:
                if e[0] not in ("store", "return", "call"): continue
                l = [x for x in e[1:] if hasattr(x, "op")] + [x for y in e[1:] if isinstance(y, (tuple, list)) for x in y if hasattr(x, "op")]
                for t in {t for x in l for t in subterms_cached(x) if t.op == "agg" and len(t.a[4]) == 2}:
                    C.memo = {}; C.care = 1
                    k, w = (C.val(q) for q in t.a[4])
                    if re.match(r"'[^']*'$", k): out.add("%s is %s" % (k, w))
        return {"result": {}, "pairs": sorted(out), "blocks": len(v.rpo)}
    if how == "equations":
        r = C.equations(lambda: json.dumps(C.result_table(), ensure_ascii=False, sort_keys=True))
        if r is None: raise Missing("the values carried around the loops of %s cannot be told apart" % n)
        return {"result": json.loads(r[0]), "carried": r[1], "blocks": len(v.rpo)}
    R = Report(C, range(1, fl.nargs + 1))
    res = R.result()
    if only is not None: res = {p: w for p, w in res.items() if re.match(only, p)}
    return {"effects": [r["text"] for r in R.rows], "order": R.order(), "result": res, "blocks": len(v.rpo)}


def plain(r): return {k: v for k, v in r.items() if k != "blocks"}


def found(F, prop=None):
    """item -> what was found"""
    out = {}
    for k, r, err in pmap(F, [], job, [i for i in ITEMS if prop in (None, i[0])]):
        out[k] = (r, err)
    return out


def spec(): return json.load(open(os.path.join(SPEC, "more.json")))


def compare(ctx, prop):
    F, S = ctx.F, spec()
    for i in ITEMS:
        if i[0] == prop: ctx.anchor(i[1])
    for i, (r, err) in found(F, prop).items():
        n = i[1]
        if r is None: raise Missing("%s cannot be analysed: %s" % (n, err))
        w, h = plain(r), S["%s %s" % (prop, n)]
        f = "%s in %s" % (F.stubs[ident(F, n)].file, n)
        ctx.count("blocks analysed", r["blocks"])
        for x in sorted(set(w["result"]) | set(h["result"])):
            a, b = h["result"].get(x, "nothing"), w["result"].get(x, "nothing")
            ctx.check(a == b, "value", "%s|%s" % (n, x), "%s: %s is %s instead of %s" % (n, x or "the result", b, a), f)
        for x in ("effects", "order", "carried", "calls", "pairs"):
            for t in sorted(set(w.get(x, ())) | set(h.get(x, ()))):
                ctx.check(t in w.get(x, ()) and t in h.get(x, ()), "carried value" if x == "carried" else "change", "%s|%s" % (n, t), "%s: %s %s" % (n, "now" if t in w.get(x, ()) else "no longer", t), f)


# ---------------------------------------------------------------- the properties
def of(prop, rule, least):
    RULES[prop] = rule
    def f(ctx):
        compare(ctx, prop)
        for k, n in least.items(): ctx.atleast(k, n, k)
    CHECKS[prop] = f


of("D10", "the value and the position each primitive decoder hands back, in normal form, with the values carried around its loops as a system of equations (start, step, condition to go on), equal the transcribed formulas: "
   "which bits are taken, how far they are shifted, how signs, continuation bits, tags and lengths are treated", {"value": 35, "carried value": 9})
of("M01", "the coordinates, sizes and conversions, in normal form with sums in any order and the places where fractions are cut off, equal the transcribed ones; each map file is read from the archive entry of its name", {"value": 35})
of("X07", "what each statistic holds, in normal form (what is counted, of which replays, in which order and how many), equals the transcribed one", {"value": 8})
of("X08", "name, number, digest, version and date attached to the decoded sections, in normal form, are those of the file that was read", {"value": 35})
of("A04", "the key and the entry filed for each file that is read, the conditions for a file to be read, and path and content of each file that is written, in normal form, equal the transcribed ones", {"value": 3, "change": 3})
of("U09", "size and colour of a unit by its name and owner, in normal form (each name told apart, each part of the colour), equal the transcribed ones", {"value": 8})
of("U08", "comparison, order and equality of units, in normal form, are those of their indexes", {"value": 3})


def pieces(w):
    """the parts of a list"""
    out, d, cur, q = [], 0, "", False
    for c in w[1:-1]:
        if c == "'": q = not q
        if not q: d += c in "([{"; d -= c in ")]}"
        if c == ";" and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    return out + [cur.strip()]


def scanned(w):
    """the parts of the list of files, apart from where the walk over a full list ends"""
    out = []
    for p in pieces(w):
        if p.startswith("each get_matching_files("): p = "all" + p[4:]
        if p.startswith("all get_matching_files("): p = re.sub(r" (partial|take\(\$2\))(?= if |$)", "", p)
        out.append(p)
    return out


RULES["X06"] = ("the list of files found in a directory, in normal form, is: all that is found in its directories (for one level less and as many as there is still room for) and its replay files, up to the limit; "
                "the list handed to the exports is made of those in order, restricted by the transcribed version bounds and cut to the transcribed length")


def x06(ctx):
    F, S = ctx.F, spec()
    for i, (r, err) in found(F, "X06").items():
        n = i[1]; ctx.anchor(n)
        if r is None: raise Missing("%s cannot be analysed: %s" % (n, err))
        f = "%s in %s" % (F.stubs[ident(F, n)].file, n)
        ctx.count("blocks analysed", r["blocks"])
        w, h = plain(r), S["X06 " + n]
        if i[2] == "leaf":
            have, want = scanned(w["result"].get("", "[]")), scanned(h["result"][""])
            for t in w["effects"]: ctx.bad("scan", "%s|%s" % (n, t), "%s changes %s" % (n, t), f)
        else: have, want = w["calls"], h["calls"]
        for t in sorted(set(have) | set(want)):
            ctx.check(t in have and t in want, "scan" if i[2] == "leaf" else "selection", "%s|%s" % (n, t), "%s: %s %s" % (n, "now" if t in have else "no longer", t), f)
    ctx.atleast("scan", 2, "parts of the list of files"); ctx.atleast("selection", 1, "selections")


CHECKS["X06"] = x06
