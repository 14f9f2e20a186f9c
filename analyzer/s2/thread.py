"""Control-flow clean-up on a flattened function: constant switches are folded and a switch whose outcome
is already settled on an incoming edge is bypassed (jump threading), so that a `Result`/`Option`/bool that is
built on one branch and examined after the join does not blur the two branches."""
from flat import fsuccs, copy_term
from vals import UNROLLED, Values, subst, is_const, discr_, T, subterms_cached
from facts import retarget
from counters import places, term_uses
import guard


def _clone(bb):
    return {"s": [list(s) for s in bb["s"]], "t": copy_term(bb["t"]), "src": bb["src"], "fr": bb["fr"]}


def target_of(t, c):
    for v, b in t[3]:
        if v == c: return b
    return t[4]


def _unread(fl):
    """notes of whether a value is still to be dropped, and of which variant, that nothing looks at"""
    cand = set()
    for bb in fl.bbs:
        if bb is None: continue
        for st in bb["s"]:
            if len(st[0]) == 1 and st[0][0] > fl.nargs and (st[1][0] == "discr" or st[1][0] == "use" and st[1][1][0] == "k"
                                                            and fl.locals[st[0][0]] == "bool"): cand.add(st[0][0])
    if not cand: return False
    for bb in fl.bbs:
        if bb is None: continue
        for st in bb["s"]:
            cand -= places(st[1])
            if len(st[0]) > 1: cand -= places(["ref", st[0], False])
        cand -= term_uses(bb["t"])
        if bb["t"][0] == "call": cand -= places(["ref", bb["t"][3], False])
        if not cand: return False
    for bb in fl.bbs:
        if bb is not None: bb["s"] = [st for st in bb["s"] if not (len(st[0]) == 1 and st[0][0] in cand)]
    return True


def clean(fl):
    """drop blocks that do nothing"""
    changed = True
    while changed:
        changed = False
        live = fl.rpo(); ls = set(live)
        for i in range(len(fl.bbs)):
            if i not in ls: fl.bbs[i] = None
        fwd = {}
        for i in live:
            bb = fl.bbs[i]; t = bb["t"]
            if t[0] == "nd":
                u = sorted(set(t[1]))
                if len(u) == 1: bb["t"] = t = ["goto", u[0]]; changed = True
            if t[0] == "switch":
                # arms into unreachable code are not taken
                un = lambda b: fl.bbs[b]["t"][0] == "unreachable" and not fl.bbs[b]["s"]
                arms = [[v, b] for v, b in t[3] if not un(b)]
                if len(arms) != len(t[3]): t[3] = arms; changed = True
                tg = set(b for _, b in t[3]) | (set() if un(t[4]) else {t[4]})
                if len(tg) == 1: bb["t"] = t = ["goto", tg.pop()]; changed = True
                elif un(t[4]) and t[3]:
                    # the last arm is what remains
                    t[4] = t[3].pop()[1]; changed = True
            if t[0] == "goto" and not bb["s"] and t[1] != i and i != 0: fwd[i] = t[1]
        if fwd:
            res = {}
            for i in fwd:
                seen = {i}; x = fwd[i]
                while x in fwd and x not in seen: seen.add(x); x = fwd[x]
                res[i] = x
            for i in live:
                if fl.bbs[i] is None: continue
                b4 = fsuccs(fl.bbs[i]["t"])
                if any(x in res for x in b4):
                    retarget(fl.bbs[i]["t"], lambda x: res.get(x, x)); changed = True
        if not changed: changed = _unread(fl)
    # merge straight lines
    preds = fl.preds()
    for i in list(fl.rpo()):
        bb = fl.bbs[i]
        if bb is None: continue
        while bb["t"][0] == "goto":
            j = bb["t"][1]
            if j == i or j == 0 or len(preds.get(j, [])) != 1 or fl.bbs[j] is None: break
            o = fl.bbs[j]
            bb["s"] = bb["s"] + o["s"]; bb["t"] = o["t"]; bb["src"] = o["src"] if o["t"][0] not in ("goto",) else bb["src"]
            bb["fr"] = o["fr"]
            fl.bbs[j] = None
            for x in fsuccs(bb["t"]): preds[x] = [i if p == j else p for p in preds[x]]


def unroll(F, fl, most=16, limit=6000):
    """a loop over an array that is written out is its rounds one after the other"""
    for _ in range(8):
        walk = lambda t: t[0] == "call" and t[1][0] == "k" and t[1][1].get("fn", {}).get("rp") == "$iternext" and len(t[2]) == 2
        if not any(bb is not None and walk(bb["t"]) for bb in fl.bbs): return
        v = Values(F, fl)
        todo = None
        for b in v.rpo:
            t = fl.bbs[b]["t"]
            if not walk(t): continue
            e = [e for e in v.ev[b] if e[0] == "call" and e[1] == "$iternext"]
            if not e: continue
            a = e[-1][2][0]
            while a.op == "call" and len(a.a[1]) == 1 and a.a[0].endswith(("::into_iter", "::iter")): a = a.a[1][0]
            if a.op != "agg" or a.a[0] != "array" or not 1 <= len(a.a[4]) <= most: continue
            o = t[2][0]
            if o[0] == "k" or "&mut" in fl.locals[o[1][0]] or "IterMut" in fl.locals[o[1][0]]: continue
            # the loop this is the head of
            h = b
            while len(v.preds[h]) == 1 and fsuccs(fl.bbs[v.preds[h][0]]["t"]) == [h] and fl.bbs[v.preds[h][0]]["t"][0] == "goto" and not fl.bbs[h]["s"]: h = v.preds[h][0]
            if fl.bbs[b]["s"] and h != b: continue
            back = [p for p in v.preds[h] if v.pos[p] >= v.pos[h]]
            if not back: continue
            body = {h}; st = list(back)
            while st:
                y = st.pop()
                if y in body: continue
                body.add(y); st.extend(v.preds[y])
            if any(p not in body for x in body if x != h for p in v.preds[x]) or b not in body: continue
            if fl.size() + len(body) * len(a.a[4]) > limit: continue
            todo = (b, h, body, len(a.a[4])); break
        if todo is None: return
        b, h, body, n = todo
        copies = []
        for k in range(n + 1):
            m = {}
            for x in sorted(body):
                if k == 0: m[x] = x
                else: fl.bbs.append(_clone(fl.bbs[x])); m[x] = len(fl.bbs) - 1
            copies.append(m)
        for k, m in enumerate(copies):
            for x in body:
                q = fl.bbs[m[x]]
                nxt = copies[k + 1][h] if k < n else m[h]
                retarget(q["t"], lambda y: nxt if y == h else m.get(y, y))
                if x == b: q["t"][2] = list(q["t"][2]) + [["k", {"t": "usize", "v": UNROLLED + k}]]
        clean(fl)


def thread(F, fl, max_rounds=14, split_return=True, grow=4.0):
    clean(fl)
    unroll(F, fl)
    limit = int(fl.size() * grow) + 200
    for rnd in range(max_rounds):
        v = Values(F, fl)
        changed = False
        # constant switches
        for b in v.rpo:
            t = fl.bbs[b]["t"]
            if t[0] != "switch": continue
            c = _term(v, b)
            if is_const(c) and isinstance(c.a[0], int):
                fl.bbs[b]["t"] = ["goto", _arm(t, c.a[0])]; changed = True
        if not changed:
            for b, outs in guard.settled(v).items():
                t = fl.bbs[b]["t"]
                if len(outs) == 1: fl.bbs[b]["t"] = ["goto", outs[0]]; changed = True
                elif len(outs) > 1:
                    arms = [a for a in t[3] if a[1] in outs]
                    if len(arms) != len(t[3]):
                        n = ["switch", t[1], t[2], arms, t[4]]
                        if t[4] not in outs: n[4] = arms.pop()[1]
                        fl.bbs[b]["t"] = n; changed = True
        if changed:
            clean(fl); continue
        touched = set()
        preds = v.preds
        for S in v.rpo:
            bb = fl.bbs[S]
            if bb is None or S in touched: continue
            t = bb["t"]
            if t[0] == "switch":
                c = _term(v, S)
                if not any(x.op == "phi" for x in subterms_cached(c)): continue
            elif t[0] == "return" and split_return:
                c = discr_(v.local(0, v.out[S]))
                if c.op != "discr" or not any(x.op == "phi" for x in subterms_cached(c)): continue
            else: continue
            # straight line back to a join
            chain = [S]
            J = S
            ok = True
            while len(preds[J]) == 1:
                p = preds[J][0]
                if len(fsuccs(fl.bbs[p]["t"])) != 1 or fl.bbs[p]["t"][0] == "call" or p in chain: ok = False; break
                J = p; chain.append(J)
            if not ok or len(preds[J]) < 2 or any(x in touched for x in chain): continue
            back = any(v.pos[p] >= v.pos[J] for p in preds[J])      # perhaps a loop head
            if back and t[0] != "switch": continue
            if sum(len(fl.bbs[x]["s"]) for x in chain) > 60: continue
            groups = {}
            for p in preds[J]:
                m = {ph: ops[p] for ph, ops in v.phis.items() if ph.a[0] == J and p in ops}
                o = subst(c, m)
                groups.setdefault(o.a[0] if is_const(o) else None, []).append(p)
            if back and (None in groups or len(groups) < 2): continue
            known = [k for k in groups if k is not None]
            if not known or (len(groups) == 1 and t[0] == "return"): continue
            if fl.size() > limit: continue
            if any(p in touched for p in preds[J]): continue
            keep = None if None in groups else known[-1]
            for k in known:
                if k == keep and t[0] == "return": continue
                prev = None; head = None
                for x in reversed(chain):
                    n = _clone(fl.bbs[x]); fl.bbs.append(n); ni = len(fl.bbs) - 1
                    touched.add(ni)
                    if prev is not None: fl.bbs[prev]["t"] = ["goto", ni]
                    else: head = ni
                    prev = ni
                if t[0] == "switch": fl.bbs[prev]["t"] = ["goto", _arm(t, k)]
                for p in groups[k]:
                    retarget(fl.bbs[p]["t"], lambda x: head if x == J else x)
                touched.update(groups[k])
            touched.update(chain)
            changed = True
        if not changed: return v
        clean(fl)
    return Values(F, fl)


def _arm(t, c):
    for v, b in t[3]:
        if v == c: return b
    return t[4]


def _term(v, b):
    for e in reversed(v.ev[b]):
        if e[0] == "switch": return e[1]
    return None
