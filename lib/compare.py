"""Node-for-node comparison of an analysed function against its specification."""
import os
import re
from vg import Graph, Fn, N, short, Blowup
from common import REPO, repoloc


def build(J, names=None, pure=(), opts=None, G=None):
    G = G or Graph()
    out = {}
    for f in J["functions"]:
        if names is None or f["name"] in names:
            out[f["name"]] = f
    return G, out


def external(G, b):
    """bases whose content is visible after return"""
    if b is None:
        return True
    k = G.keys[b]
    if k[0] == "global" and re.match(r"(\(anonymous namespace\)::|\w+::)*x_(scratch|strs|pool|used|n|out|shown|plain|root|in)(\[abi:\w+\])?$", str(k[1])):     # stand-ins' own
        return False
    if k[0] == "call" and k[1] == "x_slot":
        # a slot of a local map, or of a map inside a slot (part of that slot's value)
        return not any(inside(G, x) for x in G.children(b))
    if k[0] == "global" and getattr(G, "local_statics", False) and re.search(r"^guard variable for |\)( const)?::\w+(\[abi:\w+\])?$", str(k[1])):
        return False            # (on request) a function's own static
    return k[0] != "alloca" and not heap(k)


def inside(G, n):
    k = G.keys[n]
    return k[0] == "alloca" or heap(k) or k[:2] == ("call", "x_slot") or any(inside(G, x) for x in G.children(n))


def heap(k):
    return k[0] == "call" and isinstance(k[1], str) and (k[1].startswith("operator new") or k[1] == "malloc")


def cells(G, F):
    out = {}
    for s in F.stores:
        if not external(G, s["base"]):
            continue
        if s["ty"] in ("memcpy", "memset"):
            continue
        out[(s["base"], s["off"], s["size"])] = s
    return out


def copies(G, F):
    return [s for s in F.stores if external(G, s["base"]) and s["ty"] in ("memcpy", "memset")]


def memdiff(G, T, R, mt, mr, st, sr, diffs, what, ignore=(), only=None, dc=None):
    """contents of every externally visible cell written (or of the cells of
    the bases in `only`)"""
    ct, cr = {}, {}
    cps = []
    for src, out in ((st, ct), (sr, cr)):
        for s in src:
            if only is not None:
                if s["base"] not in only:
                    continue
            elif not external(G, s["base"]) or s["base"] in ignore:
                continue
            if s["ty"] in ("memcpy", "memset"):
                cps.append(s)
            else:
                out[(s["base"], s["off"], s["size"])] = s
    allc = dict(cr)
    allc.update(ct)
    for s in cps:
        n = s["size"]
        if n is None:
            continue
        # chunk by the cell sizes used elsewhere on that base
        sizes = sorted({k[2] for k in list(ct) + list(cr) if k[0] == s["base"]}) or [8 if n % 8 == 0 else 4]
        w = sizes[0]
        whole = {(k[1], k[2]) for k in list(ct) + list(cr) if k[0] == s["base"]}
        for o in range(0, n, w):
            if o + w <= n:
                # (bytes of a larger cell are compared with that cell)
                if any((G.padd(s["off"], G.const(o - d)), z) in whole for z in sizes if z > w for d in range(0, z - w + 1)):
                    continue
                allc.setdefault((s["base"], G.padd(s["off"], G.const(o)), w), s)
    nc = 0
    for (b, off, size), s in sorted(allc.items(), key=lambda kv: (str(kv[0][0]), str(kv[0][1]), kv[0][2])):
        nc += 1
        ty = s.get("ty") or ""
        if ty in ("memcpy", "memset"):
            ty = ""
        vt = T.ldb(mt, b, off, size, ty) if mt is not None else G.BOT
        vr = R.ldb(mr, b, off, size, ty) if mr is not None else G.BOT
        if vt != vr and dc not in (None, G.F) and G.ite(dc, G.BOT0, vt) == G.ite(dc, G.BOT0, vr):
            continue            # they only differ where the execution fails
        if vt != vr and vt is not None and vr is not None and G.eq2slt(vt) == G.eq2slt(vr):
            continue
        if vt != vr:
            loc = repoloc((ct.get((b, off, size)) or s)["loc"])
            diffs.append((loc, (os.environ.get("VERIF_WHERE") and vt and vr and G.where(vt, vr) + "\n" or "") + "%svalue stored at %s[%s]: is %s, must be %s" % (what, "?" if b is None else G.s(b), G.s(off), G.s(vt), G.s(vr))))
    return nc


def canonexit(G, F, lid, c):
    """continue/exit test of a counted loop -> iterations, whatever comparison
    (<, !=, <=, pointer or index, signed or unsigned) expresses it"""
    gate = next((i["gate"] for i in F.loops.values() if i["id"] == lid), G.T)
    while G.keys[c][0] == "ite" and G.keys[c][2] not in (G.T, G.F):
        # a bound that depends on whether the loop runs at all
        b = G.boolatom(*G.keys[G.keys[c][1]])
        g, b = G.eq2slt(gate), G.eq2slt(b)
        if G.AND(g, b) == G.F:
            c = G.keys[c][3]
        elif G.AND(g, G.NOT(b)) == G.F:
            c = G.keys[c][2]
        else:
            break
    k = G.keys[c]
    neg = None
    if k[0] == "ite" and k[2] == G.T and k[3] == G.F:
        neg = False
    elif k[0] == "ite" and k[2] == G.F and k[3] == G.T:
        neg = True
    else:
        return c
    a = G.keys[k[1]]
    if a[0] != "cmp" or a[1] not in ("slt", "ult", "=="):
        return c
    it = G.mk("iter", lid)
    d = G.padd(a[2].i, a[3].i, -1)
    step, rest = 0, {}
    for m, x in G.terms(d).items():
        if m == (it,):
            step = x
        elif it in m:
            return c
        else:
            rest[m] = x
    if not step:
        return c
    for m in rest:
        for y in m:
            if it in G.support(y) or any(G.keys[z][0] == "mu" and G.keys[z][1] == lid for z in G.support(y)):
                return c
    # d = step*k + rest;  exit when
    if step < 0:
        step, rest = -step, {m: -x for m, x in rest.items()}
        flip = True
    else:
        flip = False
    r0 = rest.pop((), 0)
    if a[1] == "==":
        if neg:
            return c
        bound, slack = r0, 0               # leaves when step*k + rest + r0 == 0
    else:
        # not flipped: a<b  <=> d<0 ; exit when !(d<0) : step*k+rest+r0 >= 0
        # flipped:     a<b  <=> -d' <0 <=> d'>0 ; exit when d' > 0 : step*k+rest+r0 >= 1
        if (not flip and not neg) or (flip and neg):
            return c                       # the loop runs while the difference grows: not a counted loop
        bound = r0 if not flip else r0 - 1
        slack = 1
    # trip = ceil(-(rest+bound)/step)
    if all(x % step == 0 for x in rest.values()):
        t = {m: -x // step for m, x in rest.items()}
        t[()] = -(bound // step) if True else 0
        if a[1] == "==" and bound % step:
            return c
        return G.mk("trip", lid, N(G.frompoly(t)))
    t = {m: -x for m, x in rest.items()}
    t[()] = -bound
    return G.mk("tripdiv", lid, N(G.frompoly(t)), step)


def looptree(F):
    out = {}
    for h, i in F.loops.items():
        out[i["id"]] = i
    return out


def compare_loops(G, T, R, diffs, roots, ignore=()):
    """loops are matched in preorder; a pair is equal if it is entered under the
    same gate, its carried values, exits and per-iteration memory/effects agree"""
    lt, lr = looptree(T), looptree(R)
    if len(lt) != len(lr):
        diffs.append((loopwhere(T, lt), "%d loops, the specification has %d" % (len(lt), len(lr))))
        return 0
    n = 0
    for lid in lt:
        a, b = lt[lid], lr[lid]
        where = loopwhere(T, {lid: a})
        pa = T.loops[a["parent"]]["id"] if a["parent"] is not None else None
        pb = R.loops[b["parent"]]["id"] if b["parent"] is not None else None
        if pa != pb:
            diffs.append((where, "loop %d nests in loop %s, must nest in %s" % (lid, pa, pb)))
            continue
        if a["gate"] != b["gate"]:
            diffs.append((where, "loop entered when %s, must be when %s" % (G.s(a["gate"]), G.s(b["gate"]))))
        ea = [(canonexit(G, T, lid, c), dead) for _, _, _, c, dead in a["exits"] if not dead]
        eb = [(canonexit(G, R, lid, c), dead) for _, _, _, c, dead in b["exits"] if not dead]
        if ea != eb:
            diffs.append((where, "loop ends when %s, must end when %s" % ("; ".join(G.s(x) for x, _ in ea), "; ".join(G.s(x) for x, _ in eb))))
        for x, _ in ea + eb:
            roots.append(x)
        sa = [s for s in T.stores if T.inloop(s["loop"], a["header"])]
        sb = [s for s in R.stores if R.inloop(s["loop"], b["header"])]
        ma, mb = latchmem(T, a), latchmem(R, b)
        n += 1 + memdiff(G, T, R, ma, mb, sa, sb, diffs, "loop: ", ignore)
        for s in sa + sb:
            roots.append(s["val"])
            roots.append(s["off"])
    # carried values the compared nodes depend on
    pt = {p["val"]: (p, i) for i in lt.values() for p in i["phis"] if p["kind"] == "mu"}
    pr = {p["val"]: (p, i) for i in lr.values() for p in i["phis"] if p["kind"] == "mu"}
    pt = {(G.keys[v][1] if G.keys[v][0] == "ite" else v): x for v, x in pt.items()}
    pr = {(G.keys[v][1] if G.keys[v][0] == "ite" else v): x for v, x in pr.items()}
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if x in seen or x is None:
            continue
        seen.add(x)
        st += G.children(x)
        if G.keys[x][0] == "mu":
            p, q = pt.get(x), pr.get(x)
            if p is None or q is None:
                diffs.append((loopwhere(T, lt), "loop-carried value %s exists only %s" % (G.s(x), "in the specification" if p is None else "in the code")))
                continue
            n += 1
            va, vb = p[0]["nextv"], q[0]["nextv"]
            if va != vb:
                diffs.append((loopwhere(T, {0: p[1]}), "loop-carried value (starting at %s) becomes %s, must become %s" % (
                    G.s(p[0]["init"]), ", ".join(G.s(v) for v in va if v is not None), ", ".join(G.s(v) for v in vb if v is not None))))
            st += [v for v in va + vb if v is not None] + [p[0]["init"], q[0]["init"]]
    return n


class NotParallel(Exception):
    pass


def storeset(G, F):
    """{canonical guarded store: location}: every store in a loop nest as a set
    comprehension over its iteration space, independent of loop order, loop
    direction and the names of the loop variables"""
    import itertools
    loops = {h: i for h, i in F.loops.items()}
    trips = {}
    for h, i in loops.items():
        ex = [(b, c) for b, _, _, c, dead in i["exits"] if not dead]
        if len(ex) != 1:
            raise NotParallel("several exits")
        t = canonexit(G, F, i["id"], ex[0][1])
        if G.keys[t][0] != "trip":
            raise NotParallel("not a counted loop")
        trips[h] = G.keys[t][2].i
        if ex[0][0] in i["L"]["latches"] and not (ex[0][0] == h and toponly(F, h)):
            trips[h] = G.padd(trips[h], G.ONE)      # tested after the body
    cells = {}
    for s in F.stores:
        if not external(G, s["base"]):
            continue
        if s["ty"] in ("memcpy", "memset"):
            raise NotParallel("block copy")
        nest = []
        h = s["loop"]
        while h is not None:
            nest.append(h)
            h = F.headers[h].get("parent")
        nest.reverse()
        for n in (s["off"], s["val"], s["gate"]):
            for x in G.support(n):
                k = G.keys[x]
                if k[0] == "mu":
                    raise NotParallel("carried value")
                if k[0] == "ld" and hastok(G, k[3]):
                    raise NotParallel("reads what the loops write")
        cells.setdefault((tuple(nest), s["base"], s["off"], s["size"]), []).append(s)
    out = {}
    for (nest, base, off, size), ss in cells.items():
        for s in ss:
            for f in ("gate", "val"):
                s[f] = G.eq2slt(s[f])
        for s in ss:        # the body runs, so every trip count of the nest is positive
            for h in nest:
                t = dict(G.terms(trips[h]))
                c0 = t.pop((), 0)
                x = G.frompoly(t)
                for f in ("gate", "val"):
                    s[f] = G.bound(s[f], x, 1 - c0, False)
                t = dict(G.terms(G.padd(trips[h], G.mk("iter", loops[h]["id"]), -1)))
                c0 = t.pop((), 0)
                for f in ("gate", "val"):
                    s[f] = G.bound(s[f], G.frompoly(t), 1 - c0, False)
                # it < y div c  =>  c*it + c <= y
                k = G.keys[trips[h]]
                if k[0] == "div" and k[1] == "u":
                    it = G.mk("iter", loops[h]["id"])
                    y = G.padd(k[2].i, G.pmul(it, G.const(k[3])), -1)
                    t = dict(G.terms(y))
                    c0 = t.pop((), 0)
                    for f in ("gate", "val"):
                        s[f] = G.bound(s[f], G.frompoly(t), k[3] - c0, False)
        v, g = ss[0]["val"], ss[0]["gate"]
        for s in ss[1:]:            # program order: the later store wins
            v = G.ite(s["gate"], s["val"], v)
            g = G.OR(g, s["gate"])
        best = None
        its = [G.mk("iter", loops[h]["id"]) for h in nest]
        tr = [trips[h] for h in nest]
        indep = all(it not in G.support(t) for it in its for t in tr)
        n = len(nest)
        for perm in (itertools.permutations(range(n)) if indep and n <= 4 else [tuple(range(n))]):
            for flip in (itertools.product((0, 1), repeat=n) if indep and n <= 4 else [(0,) * n]):
                mp = {}
                for pos, j in enumerate(perm):
                    bv = G.mk("bv", pos)
                    mp[its[j]] = bv if not flip[j] else G.padd(G.padd(tr[j], G.const(-1)), bv, -1)
                key = (tuple(G.subst(tr[j], mp) for j in perm), base, G.subst(off, mp), size, G.subst(v, mp), G.subst(g, mp), entryver(F, nest, base))
                rank = (key[0], key[2], key[4], key[5])
                if best is None or rank < best[0]:
                    best = (rank, key)
        out[best[1]] = repoloc(ss[0]["loc"])
    return out


def entryver(F, nest, base):
    """what happened to the base before the loop nest"""
    if not nest:
        return ()
    ch = F.loops[nest[0]]["entry_mem"].chains.get(base)
    v = F.ver(ch) if ch is not None else ()
    while isinstance(v, tuple) and v and isinstance(v[0], str) and v[0][:1] == "L" and v[0][1:].isdigit():
        v = v[1] if len(v) > 1 else ()          # another loop of the same set wrote it
    return v


def toponly(F, h):
    return not any(I["op"] in ("store", "call", "invoke") for I in F.blocks[h]["insts"])


def hastok(G, v):
    if isinstance(v, N):
        return any(hastok(G, x) for x in G.keys[v.i] if isinstance(x, (N, tuple)))
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and v[0][:1] == "L" and v[0][1:].isdigit():
            return True
        return any(hastok(G, x) for x in v if isinstance(x, (N, tuple)))
    return False


def compare_sets(G, T, R):
    """None if both functions write the same set of (address, value) pairs,
    else a list of differences; NotParallel if the loops carry something"""
    a, b = storeset(G, T), storeset(G, R)
    if set(a) == set(b):
        return None
    d = []

    def show(k):
        return "for all (%s): %s[%s] := %s when %s" % (", ".join("bv%d < %s" % (i, G.s(t)) for i, t in enumerate(k[0])), G.s(k[1]) if k[1] is not None else "?", G.s(k[2]), G.s(k[4]), G.s(k[5]))
    for k in a:
        if k not in b:
            d.append((a[k], "writes { %s }, must write %s" % (show(k), "; ".join("{ %s }" % show(x) for x in b if x not in a) or "nothing there")))
    for k in b:
        if k not in a and not d:
            d.append(("?", "must write { %s }" % show(k)))
    return d


def latchmem(F, i):
    l = i["L"]["latches"]
    ms = [F.outmem[b] for b in l if b in F.outmem]
    if len(ms) == 1:
        return ms[0]
    if not ms:
        return None
    tree = ms[0]
    for b, m in list(zip(l, ms))[1:]:
        tree = (F.gate[b], m, tree)
    return F.mergemem(tree)


def loopwhere(F, l):
    for i in l.values():
        for bb in i["L"]["blocks"]:
            for I in F.blocks[bb]["insts"]:
                w = repoloc(I.get("loc"))
                if w.startswith("/"):
                    return w
    return "?"


def reach(G, F, mem, args):
    """bases a callee can read: those its arguments point into and those whose
    address was stored in them"""
    out = set()
    st = list(args)
    while st:
        n = st.pop()
        if n is None:
            continue
        for lf in G.leaves(n):
            b, off = F.split(lf)
            if b is None or b in out or G.keys[b][0] in ("str", "fn"):
                continue
            out.add(b)
            ch = mem.chains.get(b)
            k = 0
            while ch is not None and k < 200:
                k += 1
                if ch[0] == "st":
                    st.append(ch[3])
                    ch = ch[4]
                elif ch[0] == "cp":
                    ch = ch[5]
                elif ch[0] == "ms":
                    ch = ch[4]
                else:
                    break
    return out


ALLOC = re.compile(r"(operator (new|delete)|malloc$|free$)")


def abortgate(G, F):
    a = G.F
    for b, g in F.aborts:
        a = G.OR(a, g)
    return a


def live(G, F):
    """effects of executions that do not end in a failure (what is printed on
    the way to an abort or a throw is not compared, only when it happens)"""
    ok = G.NOT(abortgate(G, F))
    return [e for e in F.effects if G.AND(e.gate, ok) != G.F and not ALLOC.match(e.name)]


def compare(G, T, R, ret=True, effects=True, outcome=True, ignore=(), sets=False, values=False):
    """-> list of (where, what); `values`: only the result and what is left in
    memory on the paths that return, not how the loops get there"""
    diffs = []
    T.ncells = 0
    if T.irreducible:
        return [("?", "irreducible control flow")]
    roots = [x for x in (T.ret, R.ret) if x is not None]
    dc = G.OR(abortgate(G, T), abortgate(G, R)) if values else G.AND(abortgate(G, T), abortgate(G, R))

    def same(a, b):
        if a == b or a is not None and b is not None and dc != G.F and G.ite(dc, G.BOT0, a) == G.ite(dc, G.BOT0, b):
            return True
        return a is not None and b is not None and G.eq2slt(a) == G.eq2slt(b)
    for F in (T, R):
        roots += [s["val"] for s in F.stores if s["loop"] is None] + [e.node for e in F.effects if e.node is not None] + [g for _, g in F.aborts]
    nc = 0
    if values:
        nc += memdiff(G, T, R, T.retmem, R.retmem, [s for s in T.stores if s["loop"] is None], [s for s in R.stores if s["loop"] is None], diffs, "", dc=dc)
        for s in T.stores:
            if s["loop"] is not None and external(G, s["base"]):
                diffs.append((repoloc(s["loc"]), "written in a loop"))
        if T.ret is not None and not same(T.ret, R.ret):
            diffs.append((repoloc(T.rets[0][2]), "result is %s, must be %s" % (G.s(T.ret), G.s(R.ret) if R.ret is not None else "-")))
        for F in (T, R):
            vs = [F.ret] if F.ret is not None else []
            vs += [F.ldb(F.retmem, s["base"], s["off"], s["size"], s["ty"] or "") for s in F.stores if external(G, s["base"]) and s["loop"] is None and s["ty"] not in ("memcpy", "memset")]
            for v in vs:
                if not diffs and any(G.keys[x][0] == "mu" for x in G.support(v)):
                    diffs.append(("?", "the value depends on what a loop carries: %s" % G.s(v)))
        T.ncells = nc
        return diffs
    setd = None
    parallel = False
    if sets and (T.loops or R.loops):
        try:
            inl = {s["base"] for F in (T, R) for s in F.stores if s["loop"] is not None}
            if any(s["loop"] is None and s["base"] in inl for F in (T, R) for s in F.stores):
                raise NotParallel("written in and outside loops")
            setd = compare_sets(G, T, R)
            parallel = setd is None
            nc += len(T.loops) + len(T.stores)
        except NotParallel:
            pass
    if parallel:
        nc += memdiff(G, T, R, T.retmem, R.retmem, [s for s in T.stores if s["loop"] is None], [s for s in R.stores if s["loop"] is None], diffs, "", ignore, dc=dc)
    else:
        nc += memdiff(G, T, R, T.retmem, R.retmem, T.stores, R.stores, diffs, "", ignore, dc=dc)
    if parallel:
        pass
    elif setd:
        diffs += setd
    elif T.loops or R.loops:
        nc += compare_loops(G, T, R, diffs, roots, ignore)
    if ret and (T.ret is not None or R.ret is not None) and not same(T.ret, R.ret):
        loc = "?"
        for b, v, l in T.rets:
            loc = repoloc(l)
        if T.ret in T.defloc:
            loc = repoloc(T.defloc[T.ret])
        diffs.append((loc, (os.environ.get("VERIF_WHERE") and T.ret is not None and R.ret is not None and G.where(T.ret, R.ret) + "\n" or "") + "result is %s, must be %s" % (G.s(T.ret) if T.ret is not None else "-", G.s(R.ret) if R.ret is not None else "-")))
    if effects:
        def lid(F, e):
            return None if e.loop is None else F.loops[e.loop]["id"]
        et = [(e.name, e.node, e.gate, lid(T, e)) for e in live(G, T)]
        er = [(e.name, e.node, e.gate, lid(R, e)) for e in live(G, R)]
        if et != er:
            k = 0
            while k < len(et) and k < len(er) and et[k] == er[k]:
                k += 1
            loc = repoloc(live(G, T)[k].loc) if k < len(et) else "?"
            a = "%s when %s" % (G.s(et[k][1]), G.s(et[k][2])) if k < len(et) else "nothing"
            b = "%s when %s" % (G.s(er[k][1]), G.s(er[k][2])) if k < len(er) else "nothing"
            diffs.append((loc, "effect %d is %s, must be %s" % (k, a, b)))
        else:
            inl = {s["base"] for F in (T, R) for s in F.stores if s["loop"] is not None} if parallel else set()
            for e, f in zip(live(G, T), live(G, R)):
                am, bm = getattr(e, "argmem", None), getattr(f, "argmem", None)
                if am is None or bm is None:
                    continue
                only = reach(G, T, am, e.args) | reach(G, R, bm, f.args)
                only -= inl
                if only:
                    d2 = []
                    nc += memdiff(G, T, R, am, bm, T.stores, R.stores, d2, "", only=only)
                    for w, t in d2[:2]:
                        diffs.append((repoloc(e.loc), "argument of %s: %s" % (short(e.name), t)))
    if outcome:
        at = G.F
        for b, g in T.aborts:
            at = G.OR(at, g)
        ar = G.F
        for b, g in R.aborts:
            ar = G.OR(ar, g)
        if at != ar:
            loc = "?"
            for b, g in T.aborts:
                for I in reversed(T.blocks[b]["insts"]):
                    w = repoloc(I.get("loc"))
                    if w.startswith(REPO):
                        loc = w
                        break
                if loc != "?":
                    break
            diffs.append((loc, "fails when %s, must fail when %s" % (G.s(at), G.s(ar))))
    T.ncells = nc
    return diffs
