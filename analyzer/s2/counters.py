"""Loops that count with a variable of their own are given the form of a loop over a range:
`let mut i = a; while i < n { ...; i += 1 }` is `for i in a..n { ... }`, and
`let mut left = n; while left > 0 { left -= 1; ... }` is `for _ in 0..n { ... }`, when nothing else
assigns, borrows or needs the variable."""
import re

RANGE = "core::ops::range::Range"
INTTY = re.compile(r"^[ui](8|16|32|64|128|size)$")
LENGTH = re.compile(r"::len$")


def places(o):
    """locals an operand, place or rvalue mentions"""
    out = set()
    def place(p):
        out.add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "i": out.add(e[1])
    def op(x):
        if x and x[0] in ("c", "m"): place(x[1])
    k = o[0]
    if k in ("c", "m") and isinstance(o[1], list): op(o)
    elif k == "use": op(o[1])
    elif k in ("ref", "discr", "unlock"): place(o[1])
    elif k == "cast": op(o[2])
    elif k == "bin": op(o[2]); op(o[3])
    elif k == "un": op(o[2])
    elif k == "agg":
        for x in o[5]: op(x)
    elif k == "repeat": op(o[1])
    elif k == "k": pass
    else:
        for x in o[1:]:
            if isinstance(x, list) and x:
                if x[0] in ("c", "m") and len(x) > 1 and isinstance(x[1], list): op(x)
                elif isinstance(x[0], int): place(x)
    return out


def term_uses(t):
    out = set()
    if t[0] == "switch": out |= places(t[1])
    elif t[0] == "call":
        out |= places(t[1]) if t[1] else set()
        for a in t[2]: out |= places(a)
        if len(t[3]) > 1: out |= {t[3][0]} | {e[1] for e in t[3][1:] if isinstance(e, list) and e[0] == "i"}
    elif t[0] in ("assert",): out |= places(t[1])
    elif t[0] == "panic":
        for a in (t[2] if len(t) > 2 and isinstance(t[2], list) else []):
            if isinstance(a, list): out |= places(a)
    else:
        for x in t[1:]:
            if isinstance(x, list) and x and isinstance(x[0], int) and t[0] not in ("goto",): out.add(x[0])
    return out


def counters(fl, succs):
    for _ in range(20):
        if not once(fl, succs): return


def dominators(order, preds):
    pos = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps: continue
            n = ps[0]
            for p in ps[1:]:
                while n != p:
                    while pos[n] > pos[p]: n = idom[n]
                    while pos[p] > pos[n]: p = idom[p]
            if idom.get(b) != n: idom[b] = n; ch = True
    return idom


def once(fl, succs):
    order = fl.rpo(); pos = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(fl.bbs[b]["t"]):
            if b not in preds[s]: preds[s].append(b)
    backs = [(p, h) for h in order for p in preds[h] if pos[p] >= pos[h]]
    if not backs: return False
    idom = dominators(order, preds)
    def dom(a, b):
        while True:
            if a == b: return True
            if b == order[0]: return False
            b = idom[b]
    loops = {}
    for p, h in backs:
        if not dom(h, p): continue
        c = loops.setdefault(h, {h}); st = [p]
        while st:
            x = st.pop()
            if x in c: continue
            c.add(x); st += preds[x]
    for h, c in sorted(loops.items(), key=lambda q: len(q[1])):
        if attempt(fl, succs, h, c, preds, order): return True
    return False


def attempt(fl, succs, h, c, preds, order):
    bbs = fl.bbs
    # from the head straight to the test
    chain = [h]
    while True:
        t = bbs[chain[-1]]["t"]
        if t[0] == "switch": break
        ok = t[0] == "goto" or t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1] and LENGTH.search(t[1][1]["fn"]["rp"]) and len(t[3]) == 1
        n = succs(t)
        if not ok or len(n) != 1 or n[0] not in c or n[0] in chain or preds[n[0]] != [chain[-1]] or len(chain) > 6: return False
        chain.append(n[0])
    T = chain[-1]; t = bbs[T]["t"]
    ins = [x for x, _ in [(a[1], 0) for a in t[3]] + [(t[4], 0)] if x in c]
    if t[4] is None or len(t[3]) != 1 or t[3][0][0] != 0: return False
    zero, other = t[3][0][1], t[4]
    if (zero in c) == (other in c): return False
    # what is defined where, inside the loop
    defs = {}
    for b in c:
        for i, s in enumerate(bbs[b]["s"]): defs.setdefault(s[0][0], []).append((b, i))
        if bbs[b]["t"][0] == "call": defs.setdefault(bbs[b]["t"][3][0], []).append((b, None))
    def source(o, d=0):
        """operand at the test, through the copies made on the way from the head"""
        if o[0] not in ("c", "m") or len(o[1]) != 1 or d > 8: return o
        ds = defs.get(o[1][0], [])
        if len(ds) != 1 or ds[0][0] not in chain or ds[0][1] is None: return o
        s = bbs[ds[0][0]]["s"][ds[0][1]]
        if len(s[0]) != 1: return o
        if s[1][0] == "use" and s[1][1][0] in ("c", "m") and len(s[1][1][1]) == 1: return source(s[1][1], d + 1)
        return o
    def counted(o):
        """the counter: one step of one, a whole number, never borrowed"""
        if o[0] not in ("c", "m") or len(o[1]) != 1: return None
        l = o[1][0]
        if not INTTY.match(str(fl.locals[l])) or l <= fl.nargs and False: return None
        ds = defs.get(l, [])
        if len(ds) != 1 or ds[0][1] is None: return None
        s = bbs[ds[0][0]]["s"][ds[0][1]]
        if len(s[0]) != 1: return None
        r = s[1]
        if r[0] != "bin" or r[1] not in ("Add", "Sub"): return None
        x = r[2]
        k = x[0] in ("c", "m") and x[1] == [l]
        if not k or r[3][0] != "k" or r[3][1].get("v") != 1: return None
        return l, r[1], ds[0]
    def fixed(o, d=0):
        """an operand with the same value in every round"""
        if o[0] == "k": return True
        if o[0] not in ("c", "m") or d > 8: return False
        p = o[1]
        if any(isinstance(e, list) and e[0] == "i" for e in p[1:]): return False
        ds = defs.get(p[0], [])
        if not ds: return not borrowed(p[0])
        if len(ds) != 1 or ds[0][0] not in chain or len(p) > 1: return False
        b, i = ds[0]
        if i is None: return all(fixed(a, d + 1) for a in bbs[b]["t"][2])
        s = bbs[b]["s"][i]
        if len(s[0]) != 1: return False
        r = s[1]
        if r[0] == "use": return fixed(r[1], d + 1)
        if r[0] == "cast": return fixed(r[2], d + 1)
        if r[0] == "ref" and not r[2]: return fixed(["c", r[1]], d + 1)
        if r[0] == "bin": return fixed(r[2], d + 1) and fixed(r[3], d + 1)
        if r[0] == "un": return fixed(r[2], d + 1)
        return False
    def borrowed(l):
        """written through a borrow somewhere in the function, other than as a whole"""
        for b in order:
            for s in bbs[b]["s"]:
                if s[1][0] == "ref" and s[1][2] and s[1][1][0] == l and b in c: return True
                if s[1][0] == "ref" and s[1][2] and s[1][1][0] == l and "*" not in s[1][1][1:]: return True
        return False
    # the test
    f = source(t[1])
    ds = defs.get(f[1][0], []) if f[0] in ("c", "m") and len(f[1]) == 1 else []
    down = None; L = None
    if t[2] == "bool":
        if len(ds) != 1 or ds[0][0] not in chain or ds[0][1] is None: return False
        r = bbs[ds[0][0]]["s"][ds[0][1]][1]
        if r[0] != "bin" or r[1] not in ("Gt", "Lt", "Ge", "Le", "Ne", "Eq"): return False
        op, a, b = r[1], source(r[2]), source(r[3])
        la, lb = counted(a), counted(b)
        if (la is None) == (lb is None): return False
        if lb is not None: op = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(op, op); a, b, la = b, a, lb
        if zero in c: op = {"Gt": "Le", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Ne": "Eq", "Eq": "Ne"}[op]
        L, step, at = la
        if step == "Sub":
            if op not in ("Gt", "Ne") or b[0] != "k" or b[1].get("v") != 0: return False
            if op == "Gt" and False: return False
            if op == "Ne" and str(fl.locals[L]).startswith("i"): return False
            end = None
        else:
            if op not in ("Lt", "Ne") or not fixed(b): return False
            end = b
        body, out = (zero, other) if zero in c else (other, zero)
    else:
        la = counted(f)
        if la is None or la[1] != "Sub" or other not in c or str(fl.locals[la[0]]).startswith("i"): return False
        L, step, at = la; op = "Ne"; end = None; body, out = other, zero
    if any(s[1][0] == "ref" and s[1][1] == [L] or s[1][0] == "ref" and s[1][1][0] == L for b in order for s in bbs[b]["s"]): return False
    ib, ii = at
    # every way around steps once
    inner = c - {h}
    def reach(x, stop):
        seen, st = set(), [y for y in succs(bbs[x]["t"]) if y in inner and y not in stop]
        while st:
            y = st.pop()
            if y in seen: continue
            seen.add(y); st += [z for z in succs(bbs[y]["t"]) if z in inner and z not in stop]
        return seen
    if ib in chain: return False
    if ib in reach(ib, set()): return False
    free = reach(h, {ib}) | {h}
    if any(p in free for p in preds[h] if p in c): return False
    # nobody else looks at it: down, not at all; up, only before the step
    temps = {s[0][0] for b in chain for s in bbs[b]["s"] if len(s[0]) == 1 and L in places(s[1])}
    live_out = set()
    seen, st = set(), [s for b in c for s in succs(bbs[b]["t"]) if s not in c]
    killed = lambda b: None
    while st:
        x = st.pop()
        if x in seen or x in c: continue
        seen.add(x)
        dead = False
        for s in bbs[x]["s"]:
            if L in places(s[1]) or L in {e[1] for e in s[0][1:] if isinstance(e, list) and e[0] == "i"}: return False
            if s[0] == [L]: dead = True; break
        if dead: continue
        if L in term_uses(bbs[x]["t"]): return False
        st += [y for y in succs(bbs[x]["t"]) if y not in seen]
    after = reach(ib, set())
    for b in c:
        for i, s in enumerate(bbs[b]["s"]):
            if (b, i) == at: continue
            u = places(s[1]) | {e[1] for e in s[0][1:] if isinstance(e, list) and e[0] == "i"}
            if L in u:
                if b in chain:
                    if len(s[0]) != 1 or [d for d in defs[s[0][0]]] != [(b, i)]: return False
                    continue
                if step == "Sub" or b in after or b == ib and i > ii: return False
        if L in term_uses(bbs[b]["t"]) and b not in chain:
            if step == "Sub" or b in after or b == ib: return False
        if L in term_uses(bbs[b]["t"]) and b in chain and b != T: return False
    # copies made on the way to the test are used there only
    for l in temps:
        for b in order:
            if b in chain: continue
            if any(l in places(s[1]) for s in bbs[b]["s"]) or l in term_uses(bbs[b]["t"]): return False
    if op == "Ne" and step == "Add":
        # counting up to a number it cannot have passed: from nothing
        ini = [(b, s) for b in order if b not in c for s in bbs[b]["s"] if s[0] == [L]]
        if len(ini) != 1 or ini[0][1][1][0] != "use" or ini[0][1][1][1][0] != "k" or ini[0][1][1][1][1].get("v") != 0: return False
        ty = str(fl.locals[L])
        if ty.startswith("i"): return False
    if step == "Add" and L <= fl.nargs: return False
    # rewrite
    ty = fl.locals[L]; src, fr = bbs[T]["src"], bbs[T]["fr"]
    E = fl.new_local(ty); R = fl.new_local("core::ops::range::Range<%s>" % ty); I = fl.new_local("core::option::Option<%s>" % ty); D = fl.new_local("isize")
    outside = [p for p in preds[h] if p not in c]
    pre = fl.new_block(src, fr, [[[E], ["use", ["c", [L]]], src]], ["goto", h])
    from facts import retarget
    for p in outside: retarget(bbs[p]["t"], lambda x: pre if x == h else x)
    zeroc = ["k", {"t": ty, "v": 0}]
    lo, hi = (zeroc, ["c", [E]]) if step == "Sub" else (["c", [E]], b if False else end)
    if hi[0] == "m": hi = ["c", hi[1]]
    bbs[T]["s"].append([[R], ["agg", "adt", RANGE, 0, "Range", [lo, hi], ["start", "end"]], src])
    start = body
    if step == "Add":
        start = fl.new_block(src, fr, [[[L], ["use", ["c", [I, ["v", 1, "Some"], ["f", 0, "0", ""]]]], src]], ["goto", body])
    un = fl.new_block(src, fr, None, ["unreachable"])
    sw = fl.new_block(src, fr, [[[D], ["discr", [I], "core::option::Option"], src]], ["switch", ["c", [D]], "isize", [[0, out], [1, start]], un])
    bbs[T]["t"] = ["call", ["k", {"t": "fn", "fn": {"p": "$iternext", "id": "$iternext", "rp": "$iternext", "rid": "$iternext", "k": "item", "g": [], "rg": [], "local": False}}], [["c", [R]], ["k", {"t": "site", "v": R}]], [I], sw]
    del bbs[ib]["s"][ii]
    return True
