"""Per-decoder facts, computed in parallel: what every decode function reads and where the values go."""
import json, os, re, time
import multiprocessing as mp
from ctx import SPEC, Missing
import grammar
from grammar import Gram, automaton, text

NUM = {"parse_vlq_int", "bit_packed_decoder::rtake_n_bits", "bit_packed_decoder::take_n_bits_into_i64", "bit_packed_decoder::take_bit_array"}
_spec = None


def spec():
    global _spec
    if _spec is None: _spec = json.load(open(os.path.join(SPEC, "wire.json")))
    return _spec


def stop_for(names, own):
    names = set(names)
    def stop(i, p): return p in names and p != own
    return stop


_W = {}


def _call(x):
    fn, F, names = _W["fn"], _W["F"], _W["names"]
    try: return x, fn(F, names, x), None
    except Exception as e:
        import traceback
        return x, None, "%r %s" % (e, traceback.format_exc()[-600:])


def pmap(F, names, fn, items, chunk=4):
    """fn(F, names, pretty) over many functions on all cores"""
    _W.update(fn=fn, F=F, names=names)
    n = min(8, os.cpu_count() or 1)
    if n <= 1 or len(items) < 8: return [_call(x) for x in items]
    with mp.get_context("fork").Pool(n) as p: return p.map(_call, items, chunksize=chunk)


def gram(F, names, pretty):
    ids = F.by_pretty.get(pretty)
    if not ids: raise Missing("decoder %s is not there" % pretty)
    i = ids[0] if isinstance(ids, list) else ids
    i = getattr(i, "id", i)
    return Gram(F, i, stop_for(names, pretty))


def layout(F, names, pretty):
    """(language of reads, language of reads with destinations, constants)"""
    g = gram(F, names, pretty)
    d = {"wire": text(*automaton(g, dest=False)), "fields": text(*automaton(g)), "consts": {k: sorted(v) for k, v in sorted(g.consts.items())},
         "reads": len(g.reads)}
    if pretty in NUM: d["coarse"] = coarse(g)
    return d


def coarse(g):
    """set of raw reads with their sizes reduced to what they are made of"""
    out = set()
    for e in g.reads.values():
        nm = e[1]
        out.add("$apply" if re.search(r"^nom::bits::(complete|streaming)::take::\{closure#\d+\}$", nm) else nm)
    return sorted(out)


def decoders(F):
    return sorted({s.p for s in F.stubs.values() if s.bk == "fn" and (grammar.TYPE_PARSE.match(s.p) or grammar.PRIM.match(s.p))})


EXTRA = re.compile(r"::parse_event_(triplet|pair)$|^protocol_version_decoder::ProtocolHeader::parse$")


def all_decoders(F):
    return sorted(set(decoders(F)) | {s.p for s in F.stubs.values() if s.bk == "fn" and EXTRA.search(s.p)})


def make_spec(F):
    names = all_decoders(F)
    out = {}
    for n, r, err in pmap(F, names, layout, names):
        if err: raise Exception(n + ": " + err)
        out[n] = r
    return {"decoders": out}
