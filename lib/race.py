"""Races between the threads of a team, from the value graph of one thread
(its rank is an argument) without loops: a barrier starts a new phase, and in no
phase may a thread read or write what another thread writes."""
from vg import Blowup


def phases(f, barrier):
    """{id(instruction): set of numbers of barriers before it}"""
    B = {b["id"]: b for b in f["blocks"]}
    inn, out = {f["blocks"][0]["id"]: {0}}, {}
    todo = [f["blocks"][0]["id"]]
    while todo:
        b = todo.pop()
        cur = set(inn[b])
        for I in B[b]["insts"]:
            out.setdefault(id(I), set()).update(cur)
            if I["op"] in ("call", "invoke") and barrier(I.get("dem") or ""):
                cur = {x + 1 for x in cur}
            if max(cur) > 64:
                raise Blowup()
            for s in I.get("succ", ()):
                if not cur <= inn.setdefault(s, set()):
                    inn[s] |= cur
                    todo.append(s)
    return out


class Races:
    def __init__(self, F, rank, own, barrier, shared):
        """`rank`: number of the argument; `own`: pattern of calls that give each thread its own index;
        `shared`: numbers of the arguments that point to what the threads share"""
        self.F, self.G, self.rank, self.own, self.shared = F, F.G, rank, own, shared
        self.ph = phases(F.f, barrier)
        self.memo = {}
        self.bars = [(I, b["id"]) for b in F.f["blocks"] for I in b["insts"] if I["op"] in ("call", "invoke") and barrier(I.get("dem") or "")]

    def dep(self, n):
        """(depends on the rank, depends on the thread's own index)"""
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = (False, False)
        k = self.G.keys[n]
        r = [k[0] == "arg" and k[1] == self.rank, k[0] in ("call", "op") and any(isinstance(x, str) and self.own(x) for x in k)]
        for c in self.G.children(n):
            x = self.dep(c)
            r = [r[0] or x[0], r[1] or x[1]]
        self.memo[n] = tuple(r)
        return self.memo[n]

    def cof(self, g, zero):
        """a condition, for rank 0 / for another rank"""
        G = self.G

        def go(n):
            k = G.keys[n]
            if k[0] != "ite":
                return n
            c = G.keys[k[1]]
            if c[0] == "cmp" and self.dep(k[1])[0]:
                z = [x.i for x in c[2:]]
                rk = [x for x in z if G.keys[x] == ("arg", self.rank)]
                ct = [G.is_const(x) for x in z if G.is_const(x) is not None]
                if rk and ct:
                    if c[1] == "==" and ct[0] == 0:
                        return go(k[2] if zero else k[3])
                    if c[1] == "slt" and z[0] == rk[0] and ct[0] == 1:
                        return go(k[2] if zero else k[3])
            return G.ite(G.node(k[1], G.T, G.F), go(k[2]), go(k[3]))
        return go(g)

    def find(self):
        F, G = self.F, self.G
        out, acc = [], []
        # the n-th barrier: one thread reaches one exactly when every other does
        for n in sorted({x for I, b in self.bars for x in self.ph[id(I)]}):
            at = [(I, F.gate[b]) for I, b in self.bars if n in self.ph[id(I)]]
            z, o = G.F, G.F
            for I, g in at:
                z, o = G.OR(z, self.cof(g, True)), G.OR(o, self.cof(g, False))
            if z != o:
                out.append((at[0][0].get("loc"), "a barrier that not every thread of the team reaches"))
        for p, I, b in F.loads:
            for g, leaf in G.guards(p):
                base, off = F.split(leaf)
                if base is not None and G.keys[base][0] == "arg" and G.keys[base][1] in self.shared:
                    acc.append((base, off, I["size"], G.AND(F.gate[b], g), I.get("loc"), self.ph[id(I)], None))
        for s in F.stores:
            if s["base"] is not None and G.keys[s["base"]][0] == "arg" and G.keys[s["base"]][1] in self.shared:
                acc.append((s["base"], s["off"], s["size"], s["gate"], s["loc"], self.ph[id(s["at"])], s["val"]))
        n = 0
        for i, x in enumerate(acc):
            for y in acc[i:]:
                if x[6] is None and y[6] is None or x[0] != y[0] or not x[5] & y[5]:
                    continue
                n += 1
                if self.clash(x, y):
                    w, o = (x, y) if x[6] is not None else (y, x)
                    out.append((w[4], "one thread writes what another %s (%s) before the next barrier" % ("writes" if o[6] is not None else "reads", ":".join(map(str, (o[4] or ["?"])[:2])))))
        self.pairs = n
        return out

    def clash(self, x, y):
        G = self.G
        d = G.padd(x[1], y[1], -1)
        c = G.is_const(d)
        own = self.dep(x[1])[1], self.dep(y[1])[1]
        if c is not None and (c >= y[2] or -c >= x[2]):
            return False
        if all(own):
            return False        # each thread in its own slot
        if x[6] is not None and x[6] == y[6] and c == 0 and not any(self.dep(x[6])):
            return False        # all threads write the same
        x0, x1, y0, y1 = self.cof(x[3], True), self.cof(x[3], False), self.cof(y[3], True), self.cof(y[3], False)
        return any(G.AND(a, b) != G.F for a, b in ((x0, y1), (x1, y0), (x1, y1)))
