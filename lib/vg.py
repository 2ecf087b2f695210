"""Gated-SSA value graphs over the normalised IR that tools/irx.cpp dumps.

For one function the builder computes, in one pass over the CFG (no solver, no
execution, no path enumeration):
  * a value node for every SSA name: hash-consed, integers as polynomials over
    atoms, conditionals as ordered decision diagrams over comparison atoms, so
    that reordering statements, extracting helpers or nesting ifs differently
    gives the same node;
  * the memory written: (base object, offset polynomial, size) -> value node;
  * the effects: opaque calls with the gate (a decision diagram) under which
    they happen, in order;
  * the outcome: under which gate the function returns / throws / aborts;
  * every loop left after unrolling, as a region (induction values normalised
    to start + step*k), with its own stores, effects and exit gates.
Two functions built in one Graph can be compared node for node.
"""
import re
import itertools
import math

class Bounded(Exception):
    pass


class Blowup(Exception):
    pass


class Graph:
    liftmax = 600

    def __init__(self, limit=20000):
        self.tab = {}
        self.keys = []
        self.ptr = set()      # atoms that are pointers
        self.memo_ite = {}
        self.memo_bound = {}
        self.memo_dsup = {}
        self.limit = limit
        self.argnames = {}
        self.T = self.mk("T")
        self.F = self.mk("F")
        self.ZERO = self.const(0)
        self.ONE = self.const(1)
        self.BOT = self.mk("bot")
        self.BOT0 = self.mk("failed")
        self.plain = frozenset((self.T, self.F))

    def mk(self, *key):
        i = self.tab.get(key)
        if i is None:
            i = len(self.keys)
            self.tab[key] = i
            self.keys.append(key)
        return i

    # ---------------------------------------------------------------- polys
    def const(self, c):
        return self.mk("poly", ((((), c),) if c else ()))

    def is_const(self, n):
        k = self.keys[n]
        if k[0] != "poly":
            return None
        if not k[1]:
            return 0
        if len(k[1]) == 1 and k[1][0][0] == ():
            return k[1][0][1]
        return None

    def terms(self, n):
        k = self.keys[n]
        if k[0] == "poly":
            return dict(k[1])
        return {(n,): 1}

    def frompoly(self, d):
        d = {m: c for m, c in d.items() if c}
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and c == 1:
                return m[0]
        return self.mk("poly", tuple(sorted(d.items())))

    def padd(self, a, b, s=1):
        d = dict(self.terms(a))
        for m, c in self.terms(b).items():
            d[m] = d.get(m, 0) + s * c
        return self.frompoly(d)

    def pmul(self, a, b):
        d = {}
        for m1, c1 in self.terms(a).items():
            for m2, c2 in self.terms(b).items():
                m = tuple(sorted(m1 + m2))
                d[m] = d.get(m, 0) + c1 * c2
        return self.frompoly(d)

    # ----------------------------------------------------- decision diagrams
    def top(self, n):
        k = self.keys[n]
        return k[1] if k[0] == "ite" else None

    def cof(self, n, c, v):
        k = self.keys[n]
        if k[0] == "ite" and k[1] == c:
            return k[2] if v else k[3]
        return n

    def node(self, c, h, l):
        if h == l:
            return h
        if h == self.BOT:
            return l
        if l == self.BOT:
            return h
        k = self.keys[c]
        if k[0] == "cmp" and k[1] == "slt" and (h not in self.plain or l not in self.plain):
            b = self.keys[k[3].i]
            if b[0] == "poly":
                x, cv = k[2].i, self.is_const(k[3].i)
                h2, l2 = self.bound(h, x, cv, True), self.bound(l, x, cv, False)
                if h2 == l2:
                    return h2
                # the test adds nothing to what the other side decides already
                if self.keys[l2][0] == "ite" and self.bound(l2, x, cv, True) == h2:
                    return l2
                if self.keys[h2][0] == "ite" and self.bound(h2, x, cv, False) == l2:
                    return h2
                h, l = h2, l2
        return self.mk("ite", c, h, l)

    plain = frozenset()

    def bound(self, n, x, cv, lt, memo=None):
        """n under the knowledge x < cv (lt) or x >= cv"""
        k = self.keys[n]
        if k[0] != "ite":
            return n
        if x not in self.dsup(n):
            return n
        key = (n, x, cv, lt)
        r = self.memo_bound.get(key)
        if r is not None:
            return r
        c = self.keys[k[1]]
        h, l = k[2], k[3]
        r = None
        if c[0] == "cmp" and c[1] == "slt" and c[2].i == x:
            c2 = self.is_const(c[3].i)
            if c2 is not None:
                if lt and c2 >= cv:
                    r = self.bound(h, x, cv, lt)
                elif not lt and c2 <= cv:
                    r = self.bound(l, x, cv, lt)
        elif c[0] == "cmp" and c[1] == "==" and c[2].i == x and c[3].i == self.ZERO:
            # x == 0
            if (lt and cv <= 0) or (not lt and cv > 0):
                r = self.bound(l, x, cv, lt)
        if r is None:
            h2, l2 = self.bound(h, x, cv, lt), self.bound(l, x, cv, lt)
            r = n if (h2, l2) == (h, l) else self.node(k[1], h2, l2)
        self.memo_bound[key] = r
        return r

    def dsup(self, n):
        """polynomials the comparison atoms of a diagram talk about"""
        r = self.memo_dsup.get(n)
        if r is None:
            k = self.keys[n]
            if k[0] != "ite":
                r = frozenset()
            else:
                r = self.dsup(k[2]) | self.dsup(k[3])
                c = self.keys[k[1]]
                if c[0] == "cmp" and c[1] in ("slt", "=="):
                    r = r | {c[2].i}
            self.memo_dsup[n] = r
        return r

    def ite(self, b, h, l):
        """b: boolean diagram; h,l: any diagrams"""
        if b == self.T:
            return h
        if b == self.F:
            return l
        if h == l:
            return h
        key = (b, h, l)
        r = self.memo_ite.get(key)
        if r is not None:
            return r
        if len(self.memo_ite) > 4000000:
            raise Blowup()
        if self.keys[b][0] != "ite":
            b = self.node(b, self.T, self.F)
        cs = [t for t in (self.top(b), self.top(h), self.top(l)) if t is not None]
        c = min(cs)
        r = self.node(c, self.ite(self.cof(b, c, 1), self.cof(h, c, 1), self.cof(l, c, 1)),
                      self.ite(self.cof(b, c, 0), self.cof(h, c, 0), self.cof(l, c, 0)))
        self.memo_ite[key] = r
        return r

    def NOT(self, b):
        return self.ite(b, self.F, self.T)

    def AND(self, a, b):
        return self.ite(a, b, self.F)

    def OR(self, a, b):
        return self.ite(a, self.T, b)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def eq2slt(self, n, memo=None):
        """integer equalities with a constant as pairs of order atoms:
        x == c  <=>  !(x < c) && x < c+1"""
        memo = {} if memo is None else memo

        def go(x):
            k = self.keys[x]
            if k[0] != "ite":
                return x
            r = memo.get(x)
            if r is None:
                c = self.keys[k[1]]
                h, l = go(k[2]), go(k[3])
                a = None
                if c[0] == "cmp" and c[1] == "==" and c[3].i == self.ZERO and not any(y in self.ptr for m in self.terms(c[2].i) for y in m):
                    t = dict(self.terms(c[2].i))
                    c0 = t.pop((), 0)
                    if t and min(t.values()) < 0 and t[min(t)] < 0:
                        t = {m: -v for m, v in t.items()}
                        c0 = -c0
                    if t and all(abs(v) == 1 for v in t.values()) or len(t) > 0 and math.gcd(*[abs(v) for v in t.values()]) == 1:
                        p = N(self.frompoly(t))
                        a = self.AND(self.NOT(self.boolatom("cmp", "slt", p, N(self.const(-c0)))), self.boolatom("cmp", "slt", p, N(self.const(1 - c0))))
                if a is None:
                    a = self.node(k[1], self.T, self.F)
                r = memo[x] = self.ite(a, h, l)
            return r
        return go(n)

    def boolatom(self, *key):
        return self.node(self.mk(*key), self.T, self.F)

    def lift(self, f, args, cache=None, cnt=None):
        """apply leaf operator f over diagrams"""
        if cache is None:
            cache = {}
            cnt = [0]
        key = tuple(args)
        if key in cache:
            return cache[key]
        cnt[0] += 1
        if cnt[0] > self.liftmax:
            raise Blowup()
        cs = [t for t in map(self.top, args) if t is not None]
        if not cs:
            r = self.BOT if self.BOT in args else f(*args)
        else:
            c = min(cs)
            h = self.lift(f, [self.cof(a, c, 1) for a in args], cache, cnt)
            l = self.lift(f, [self.cof(a, c, 0) for a in args], cache, cnt)
            # the two sides may themselves start with smaller conditions
            r = self.ite(self.node(c, self.T, self.F), h, l)
        cache[key] = r
        return r

    def where(self, a, b):
        """a place where two diagrams differ (diagnostics)"""
        p = []
        while True:
            cs = [t for t in (self.top(a), self.top(b)) if t is not None]
            if not cs:
                return "under %s: %s vs %s" % (" & ".join(p), self.s(a), self.s(b))
            c = min(cs)
            t = self.cof(a, c, 1) != self.cof(b, c, 1)
            p.append(("" if t else "!") + self.s(c))
            a, b = self.cof(a, c, int(t)), self.cof(b, c, int(t))

    def leaves(self, n):
        seen, out, st = set(), [], [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            k = self.keys[x]
            if k[0] == "ite":
                st += [k[2], k[3]]
            else:
                out.append(x)
        return out

    def guards(self, n):
        """[(when, leaf)]"""
        k = self.keys[n]
        if k[0] != "ite":
            return [(self.T, n)]
        memo = {}

        def go(x):
            k = self.keys[x]
            if k[0] != "ite":
                return {x: self.T}
            r = memo.get(x)
            if r is None:
                h, l = go(k[2]), go(k[3])
                r = memo[x] = {y: self.node(k[1], h.get(y, self.F), l.get(y, self.F)) for y in list(h) + [y for y in l if y not in h]}
            return r
        return [(g, x) for x, g in go(n).items()]

    def conds(self, n):
        seen, out, st = set(), set(), [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            k = self.keys[x]
            if k[0] == "ite":
                out.add(k[1])
                st += [k[2], k[3]]
        return out

    def support(self, n):
        """all atoms reachable (dependence set)"""
        seen, st = set(), [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += self.children(x)
        return seen

    def subst(self, n, mp, memo=None):
        """rebuild n with atoms replaced"""
        memo = {} if memo is None else memo

        def go(x):
            if x in mp:
                return mp[x]
            r = memo.get(x)
            if r is not None:
                return r
            k = self.keys[x]
            if k[0] == "poly":
                r = self.const(0)
                for m, c in k[1]:
                    t = self.const(c)
                    for y in m:
                        t = self.pmul(t, go(y))
                    r = self.padd(r, t)
            elif k[0] == "ite":
                r = self.ite(self.node(go(k[1]), self.T, self.F) if self.keys[go(k[1])][0] != "ite" else go(k[1]), go(k[2]), go(k[3]))
            elif k[0] in ("arg", "alloca", "global", "cf", "T", "F", "bot", "undef", "fn", "iter", "mu", "null", "c"):
                r = x
            else:
                def tup(t):
                    return tuple(N(go(y.i)) if isinstance(y, N) else tup(y) if isinstance(y, tuple) else y for y in t)
                nk = tup(k)
                r = x if nk == k else self.mk(*nk)
                if x in self.ptr:
                    self.ptr.add(r)
            memo[x] = r
            return r
        return go(n)

    def children(self, n):
        k = self.keys[n]
        if k[0] == "poly":
            return [a for m, c in k[1] for a in m]
        if k[0] == "ite":
            return [k[1], k[2], k[3]]
        if k[0] in ("arg", "alloca", "global", "cf", "T", "F", "bot", "undef", "fn", "iter", "mu", "null", "c"):
            return []
        return [x for x in self._ids(k[1:])]

    def _ids(self, t):
        for x in t:
            if isinstance(x, tuple):
                yield from self._ids(x)
            elif isinstance(x, N):
                yield x.i

    # -------------------------------------------------------------- printing
    def s(self, n, d=8):
        k = self.keys[n]
        if k[0] == "poly":
            if not k[1]:
                return "0"
            ts = []
            for m, c in k[1]:
                f = [self.s(a, d - 1) for a in m]
                if c != 1 or not f:
                    f = [str(c)] + f
                ts.append("*".join(f))
            return "(" + " + ".join(ts) + ")" if len(ts) > 1 else ts[0]
        if d <= 0:
            return "..."
        if k[0] == "ite":
            if k[2] == self.T and k[3] == self.F:
                return self.s(k[1], d - 1)
            if k[2] == self.F and k[3] == self.T:
                return "!" + self.s(k[1], d - 1)
            return "(%s ? %s : %s)" % (self.s(k[1], d - 1), self.s(k[2], d - 1), self.s(k[3], d - 1))
        if k[0] == "arg":
            return self.argnames.get(k[1], "arg%d" % k[1])
        if k[0] == "ld":
            return "[%s]%s" % (self.s(k[1].i, d - 1), "" if not k[3] else "@" + self._s(k[3], d - 1))
        if k[0] == "cf":
            return cfs(k)
        if k[0] == "fop":
            return "(%s %s)" % (k[1], " ".join(self.s(x.i, d - 1) for x in k[2:]))
        if k[0] == "cmp":
            return "(%s %s %s)" % (self.s(k[2].i, d - 1), k[1], self.s(k[3].i, d - 1))
        if k[0] == "call":
            return "%s(%s)" % (short(k[1]), ", ".join(self._s(x, d - 1) for x in k[2:]))
        return k[0] + ("(" + ",".join(self._s(x, d - 1) for x in k[1:]) + ")" if len(k) > 1 else "")

    def _s(self, x, d):
        if isinstance(x, N):
            return self.s(x.i, d)
        if isinstance(x, tuple):
            return "<" + ",".join(self._s(y, d) for y in x) + ">"
        return str(x)


def short(name):
    n = name
    if "(" in n:
        # strip the parameter list of a demangled name
        depth = 0
        for i, c in enumerate(n):
            if c == "<":
                depth += 1
            elif c == ">" and n[i - 1] != "-":
                depth -= 1
            elif c == "(" and depth == 0 and not n.startswith("(", i - 8 if i >= 8 else 0) and n[:i].strip() and not n[:i].endswith("operator"):
                return n[:i]
    return n


def cfs(k):
    import struct
    try:
        if k[2] == "double":
            return repr(struct.unpack(">d", bytes.fromhex(k[1].zfill(16)))[0])
        if k[2] == "float":
            return repr(struct.unpack(">f", bytes.fromhex(k[1].zfill(8)))[0]) + "f"
    except Exception:
        pass
    return str(k[1:])


class N:
    """marks a node id inside a key tuple"""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, N) and o.i == self.i

    def __hash__(self):
        return hash(("N", self.i))

    def __repr__(self):
        return "#%d" % self.i

    def __lt__(self, o):
        return self.i < o.i


class Effect:
    __slots__ = ("name", "args", "gate", "loc", "node", "kind", "loop", "sargs", "inst", "fn", "order", "argmem")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


PURE_MATH = set("""exp expf exp2 exp2f expm1 expm1f log logf log10 log10f log2 log2f log1p log1pf tgamma tgammaf lgamma lgammaf
sqrt sqrtf cbrt cbrtf tanh tanhf sin sinf cos cosf tan tanf erf erff erfc erfcf pow powf fabs fabsf floor floorf ceil ceilf
round roundf trunc truncf fmod fmodf fmax fmaxf fmin fminf copysign copysignf abs labs llabs atan atanf atan2 atan2f asin acos
asinf acosf sinh sinhf cosh coshf hypot hypotf nan nanf powi fma fmaf isnan isfinite isinf toupper tolower strlen""".split())

CASTS = {"sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}


class Mem:
    """persistent memory: per base a chain of entries"""
    __slots__ = ("chains",)

    def __init__(self, chains=None):
        self.chains = chains or {}

    def copy(self):
        return Mem(dict(self.chains))


class Fn:
    """analysis of one function"""

    def __init__(self, G, f, pure=(), opts=None):
        self.G = G
        self.f = f
        self.opts = opts or {}
        self.pure = [re.compile(r) if isinstance(r, str) else r for r in pure]
        self.blocks = {b["id"]: b for b in f["blocks"]}
        self.val = {}
        self.effects = []
        self.loops = {}
        self.stores = []      # (base, off, size, value, gate, loc, loopid)
        self.loads = []       # (address, instruction, block)
        self.notes = []
        self.defloc = {}
        self.callcount = {}
        self.alloca_n = 0
        self.instmap = {}
        for b in f["blocks"]:
            for i in b["insts"]:
                self.instmap[i["id"]] = (i, b["id"])
        self.build()

    # ------------------------------------------------------------- operands
    def op(self, o):
        G = self.G
        k = o[0]
        if k == "ci":
            v = int(o[1])
            if o[2] == 1:
                return G.T if v else G.F
            return G.const(v)
        if k == "cf":
            return G.mk("cf", o[1], o[2])
        if k == "null":
            return G.const(0)
        if k == "undef":
            return G.mk("undef")
        if k == "zero":
            return G.mk("zero", o[1])
        if k == "a":
            a = self.f["args"][o[1]]
            n = G.mk("arg", o[1])
            G.argnames.setdefault(o[1], self.argname(o[1]))
            if a["ty"] == "ptr":
                G.ptr.add(n)
            if a["ty"] == "i1":
                return G.node(n, G.T, G.F)
            return n
        if k == "i":
            if o[1] not in self.val:
                raise KeyError("undefined %s in %s" % (o, self.f["name"]))
            return self.outside(o[1], self.val[o[1]])
        if k == "g":
            if len(o) > 3:
                n = G.mk("str", o[3])
                G.ptr.add(n)
                return n
            n = G.mk("global", o[1])
            G.ptr.add(n)
            return G.padd(n, G.const(o[2])) if o[2] else n
        if k == "f":
            n = G.mk("fn", o[2])
            G.ptr.add(n)
            return n
        if k == "agg":
            return G.mk("agg", o[1], tuple(N(self.op(x)) for x in o[2:]))
        m = re.match(r"i1 icmp (eq|ne) \(ptr (@[\w.$]+), ptr (@[\w.$]+)\)$", str(o[1])) if len(o) > 1 else None
        if m:
            # two objects have two addresses
            return G.T if (m.group(2) == m.group(3)) == (m.group(1) == "eq") else G.F
        return G.mk("c", str(o[1:]))

    def outside(self, i, v):
        """a value of a loop used after it: it was computed in the iteration in
        which the loop was left, so the exit test of a single-exit loop holds"""
        if self.cur is None:
            return v
        h = self.loopof.get(self.instmap[i][1])
        while h is not None and not self.inloop(self.loopof.get(self.cur), h):
            e = self.soleexit(h)
            if e is not None:
                G = self.G
                k = G.keys[e]
                if k[0] == "ite" and {k[2], k[3]} == {G.T, G.F}:
                    v = self.restrict(v, k[1], k[2] == G.T)
            h = self.headers[h].get("parent")
        return v

    def soleexit(self, h):
        if h not in self.exitmemo:
            self.exitmemo[h] = None
            bl = self.loopblocks[h]
            ex = [(x, y) for x in bl for y in self.succs(x) if y not in bl and not self.isdead(y)]
            if len(ex) == 1 and self.loopof.get(ex[0][0]) == h:
                cur, self.cur = self.cur, None
                try:
                    self.exitmemo[h] = self.rawcond(*ex[0])
                finally:
                    self.cur = cur
        return self.exitmemo[h]

    def argname(self, n):
        return self.f["args"][n].get("name") or "arg%d" % n

    # --------------------------------------------------------------- memory
    def split(self, p):
        """pointer diagram leaf -> (base atom or None, offset node)"""
        G = self.G
        t = G.terms(p)
        bases = [m[0] for m, c in t.items() if len(m) == 1 and c == 1 and (m[0] in G.ptr or G.keys[m[0]][0] == "chv")]
        if len(bases) == 1:
            b = bases[0]
            d = dict(t)
            del d[(b,)]
            return b, G.frompoly(d)
        return None, p

    def ld(self, mem, p, size, ty):
        G = self.G

        def leaf(p):
            b, off = self.split(p)
            return self.ldb(mem, b, off, size, ty)
        return G.lift(leaf, [p])

    def mkld(self, b, off, size, ver, ty):
        G = self.G
        addr = off if b is None else G.padd(b, off)
        n = G.mk("ld", N(addr), size, ver)
        if ty == "ptr":
            G.ptr.add(n)
        return n

    def ldb(self, mem, b, off, size, ty):
        G = self.G
        ch = mem.chains.get(b)
        while ch is not None:
            kind = ch[0]
            if kind == "st":
                _, o2, s2, v, prev = ch
                if o2 == off and s2 == size:
                    return v
                d = G.is_const(G.padd(off, o2, -1))
                if d is not None and (d >= s2 or d + size <= 0):
                    ch = prev
                    continue
                if d is None and self.opts.get("distinct_sym") :
                    ch = prev
                    continue
                if d is not None and d >= 0 and d + size <= s2 and v in self.partial:
                    # part of a copied piece of memory
                    m2, b2, o3 = self.partial[v]
                    return self.ldb(m2, b2, G.padd(o3, G.const(d)), size, ty)
                if d is not None and self.opts.get("nowrap") and d >= 0 and d + size <= s2 and ty[:1] == "i":
                    # part of a combined store of two non-negative integers
                    sh, w = 1 << (8 * d), 1 << (8 * size)
                    q, ok = {}, True
                    for m, co in G.terms(v).items():
                        if co % sh == 0:
                            if (co // sh) % w:
                                q[m] = co // sh
                        elif co != 1:
                            ok = False
                    if ok and G.keys[v][0] != "ite":
                        return G.frompoly(q)
                if d is None:
                    r = self.copied(ch, off, size, ty)
                    if r is not None:
                        return r
                r = self.mkld(b, off, size, (self.ver(ch),), ty)
                if d is not None and size > s2:
                    m2 = Mem()
                    m2.chains[b] = ch
                    self.partial[r] = (m2, b, off)
                return r
            if kind == "cp":
                _, o2, n, srcmem, src, prev = ch
                d = G.is_const(G.padd(off, o2, -1))
                if d is not None and d >= 0 and d + size <= n:
                    return self.ld(srcmem, G.padd(src, G.const(d)), size, ty)
                if d is not None and (d >= n or d + size <= 0):
                    ch = prev
                    continue
                return self.mkld(b, off, size, (self.ver(ch),), ty)
            if kind == "ms":
                _, o2, n, v, prev = ch
                d = G.is_const(G.padd(off, o2, -1))
                if d is not None and d >= 0 and d + size <= n:
                    if G.is_const(v) == 0:
                        if ty in ("double", "float"):
                            return G.mk("cf", "0", ty)
                        if ty == "i1":
                            return G.F
                        return G.const(0)
                    return G.mk("splat", N(v), size)
                if d is not None and (d >= n or d + size <= 0):
                    ch = prev
                    continue
                return self.mkld(b, off, size, (self.ver(ch),), ty)
            if kind == "phi":
                # merged memory: (gate tree resolved lazily)
                key = (id(ch), b, off, size, ty)
                r = self.phild.get(key)
                if r is None:
                    r = self.phild[key] = (self.ldtree(ch[1], b, off, size, ty), ch)
                return r[0]
            if kind == "tok":
                return self.mkld(b, off, size, (ch[1],), ty)
            raise AssertionError(kind)
        if b is not None and G.keys[b][0] == "chv" and size == 1 and self.opts.get("ldstr"):
            return self.opts["ldstr"](G, b, off)
        if b is not None and G.keys[b][0] == "alloca":
            return G.mk("undef")
        if b is not None and G.keys[b][0] == "global" and ty not in ("ptr", "double", "float", "i1"):
            c = self.f.get("consts", {}).get(G.keys[b][1], {}).get((G.is_const(off), size))
            if c is not None:
                return G.const(c)
        if b is not None and G.keys[b][0] == "global" and ty == "ptr":
            c = self.f.get("gptrs", {}).get(G.keys[b][1], {}).get(G.is_const(off))
            if c is not None:
                return self.op(c)
        return self.mkld(b, off, size, (), ty)

    def copied(self, ch, off, size, ty):
        """a variable element of an array filled, element by element, with
        copies of another one: the element of that one"""
        G = self.G
        k = G.keys[ch[3]]
        if k[0] != "ld":
            return None
        A, ver = G.padd(k[1].i, ch[1], -1), k[3]
        o0, cov = ch[1], {}
        while ch is not None and ch[0] == "st":
            d = G.is_const(G.padd(ch[1], o0, -1))
            kk = G.keys[ch[3]]
            if d is None or ch[2] != size or kk[0] != "ld" or kk[3] != ver or G.padd(kk[1].i, ch[1], -1) != A:
                break
            cov.setdefault(d, ch[1])
            ch = ch[4]
        lo = min(cov)
        X = G.padd(off, cov[lo], -1)
        for m, co in G.terms(X).items():
            kk = G.keys[m[0]] if len(m) == 1 else ("",)
            if kk[0] != "div" or kk[1] != "u" or co >= 0 or co % kk[3]:
                continue
            a = -co // kk[3]
            if G.padd(X, G.padd(G.pmul(G.const(a), kk[2].i), G.frompoly({m: co})), -1) != G.ZERO:
                continue
            # X = a*(x mod c): one of 0, a, ..., a*(c-1)
            if all(lo + a * i in cov for i in range(kk[3])):
                bb, oo = self.split(G.padd(A, off))
                n = self.mkld(bb, oo, size, ver, ty)
                return n
        return None

    def ldtree(self, tree, b, off, size, ty, memo=None):
        if tree is None:
            return self.G.BOT
        if isinstance(tree, Mem):
            return self.ldb(tree, b, off, size, ty)
        memo = {} if memo is None else memo
        r = memo.get(id(tree))
        if r is None:
            c, h, l = tree
            r = memo[id(tree)] = self.G.ite(c, self.ldtree(h, b, off, size, ty, memo), self.ldtree(l, b, off, size, ty, memo))
        return r

    phiver = None

    @property
    def phild(self):
        return self.__dict__.setdefault("_phild", {})

    @property
    def partial(self):
        return self.G.__dict__.setdefault("partial", {})

    def ver(self, ch):
        """structural name of a chain"""
        if self.phiver is None:
            self.phiver, self.phikeep = {}, []
        G = self.G
        if ch is None:
            return ()
        k = ch[0]
        if k == "st":
            return N(G.mk("vst", N(ch[1]), ch[2], N(ch[3]), self.vv(ch[4])))
        if k == "cp":
            return N(G.mk("vcp", N(ch[1]), ch[2], N(ch[4]), self.vv(ch[5])))
        if k == "ms":
            return N(G.mk("vms", N(ch[1]), ch[2], N(ch[3]), self.vv(ch[4])))
        if k == "tok":
            return ch[1]
        if k == "phi":
            r = self.phiver.get(id(ch))
            if r is None:
                def tr(t):
                    if t is None:
                        return None
                    if isinstance(t, Mem):
                        return self.ver(t.chains.get(ch[3]))
                    return (N(t[0]), tr(t[1]), tr(t[2]))
                r = N(G.mk("vphi", *(() if ch[3] is None else (N(ch[3]),)), tr(ch[1])))
                self.phiver[id(ch)] = r
                self.phikeep.append(ch)
            return r

    def vv(self, ch):
        v = self.ver(ch)
        return v

    def st(self, mem, p, size, v, gate, loc, ty=None, loop=None):
        G = self.G
        if size == 8 and v in self.partial:
            # a copied piece of memory, written as two halves
            m2, b2, o2 = self.partial[v]
            for d in (0, 4):
                self.st(mem, G.padd(p, G.const(d)), 4, self.ldb(m2, b2, G.padd(o2, G.const(d)), 4, "i32"), gate, loc, ty="i32", loop=loop)
            return
        for g, leaf in G.guards(p):
            if leaf == G.BOT:
                continue
            b, off = self.split(leaf)
            if b is not None and G.keys[b][0] == "chv":
                raise Blowup()      # strings are values
            vv = v
            if g != G.T:
                vv = G.ite(g, v, self.ldb(mem, b, off, size, ty or ""))
            mem.chains[b] = ("st", off, size, vv, mem.chains.get(b))
            self.stores.append(dict(base=b, off=off, size=size, val=vv, gate=G.AND(gate, g), loc=loc, loop=loop, ty=ty))

    def restrict(self, n, c, t):
        G = self.G
        k = G.keys[n]
        if k[0] != "ite":
            return n
        if k[1] == c:
            return k[2] if t else k[3]
        if k[1] > c:
            return n
        return G.ite(G.node(k[1], G.T, G.F), self.restrict(k[2], c, t), self.restrict(k[3], c, t))

    # ---------------------------------------------------------------- build
    def build(self):
        f = self.f
        G = self.G
        # loop structure
        self.loopof = {}
        headers = {}
        for L in f["loops"]:
            headers[L["header"]] = L
        self.headers = headers
        self.loopblocks = {h: set(L["blocks"]) for h, L in headers.items()}
        for L in f["loops"]:            # preorder: outer first
            for b in L["blocks"]:
                self.loopof[b] = L["header"]
        back = set()
        for L in f["loops"]:
            for l in L["latches"]:
                back.add((l, L["header"]))
        self.back = back
        # topological order without back edges
        order, seen = [], set()

        def succs(b):
            return self.blocks[b]["insts"][-1].get("succ", [])
        st = [(0, iter(succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if (b, s) in back or s in seen:
                    continue
                seen.add(s)
                st.append((s, iter(succs(s))))
                break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.order = order
        self.succs = succs
        self.gate = {}
        self.outmem = {}
        self.inmem = {}
        self.edgecond = {}
        self.rets = []
        self.cur = None
        self.exitmemo = {}
        self.irreducible = False
        pos = {b: i for i, b in enumerate(order)}
        for b in order:
            for s in succs(b):
                if (b, s) not in back and pos[s] <= pos[b]:
                    self.irreducible = True
        for b in order:
            self.block(b)
        self.finish()

    def idom(self, b):
        return self.blocks[b].get("idom")

    def walk(self, J, pick):
        """gamma tree for join J: pick(pred)-> node (or Mem); returns tree of
        (cond, hi, lo) over the acyclic region between idom(J) and J."""
        memo = {}
        fwd = [p for p in self.blocks[J]["preds"] if (p, J) not in self.back and p in self.gate]
        # blocks that can reach J
        reach = set()
        stck = list(fwd)
        D = self.idom(J)
        while stck:
            x = stck.pop()
            if x in reach:
                continue
            reach.add(x)
            if x == D:
                continue
            stck += [p for p in self.blocks[x]["preds"] if (p, x) not in self.back and p in self.gate]

        def edge(X, Y):
            if (X, Y) in self.back:
                return None
            if Y == J:
                return pick(X)
            if Y not in reach:
                return None
            return go(Y)

        def go(X):
            if X in memo:
                return memo[X]
            ss = self.succs(X)
            inst = self.blocks[X]["insts"][-1]
            r = None
            if inst["op"] == "br" and len(ss) == 2:
                c = self.op(inst["ops"][0])
                r = ("?", c, edge(X, ss[0]), edge(X, ss[1]))
            elif inst["op"] == "switch":
                r = edge(X, inst["default"])
                v = self.op(inst["ops"][0])
                for cv, s in reversed(inst["cases"]):
                    r = ("?", self.cmp("eq", v, self.op(cv)), edge(X, s), r)
            elif inst["op"] == "invoke":
                r = edge(X, ss[0])
                if r is None:
                    r = edge(X, ss[1])
            elif len(ss) >= 1:
                for s in ss:
                    r = edge(X, s)
                    if r is not None:
                        break
            # a loop header: exits are taken from inside; treat region linearly
            memo[X] = r
            return r
        if D is None:
            return None
        return go(D)

    def resolve(self, tree):
        G = self.G
        memo = {}

        def go(t):
            if t is None:
                return G.BOT
            if isinstance(t, tuple) and t and t[0] == "?":
                k = id(t)
                if k in memo:
                    return memo[k]
                r = G.ite(t[1], go(t[2]), go(t[3]))
                memo[k] = r
                return r
            return t
        return go(tree)

    def memtree(self, t, memo=None):
        if t is None or isinstance(t, Mem):
            return t
        memo = {} if memo is None else memo
        if id(t) in memo:
            return memo[id(t)]
        h, l = self.memtree(t[2], memo), self.memtree(t[3], memo)
        r = l if h is None else h if l is None or h is l else (t[1], h, l)
        memo[id(t)] = r
        return r

    def block(self, b):
        G = self.G
        self.cur = None
        B = self.blocks[b]
        preds = [p for p in B["preds"] if (p, b) not in self.back and p in self.gate]
        is_header = b in self.headers
        # gate
        if b == 0:
            self.gate[b] = G.T
            mem = Mem()
        else:
            g = G.F
            for p in dict.fromkeys(preds):
                g = G.OR(g, G.AND(self.gate[p], self.econd(p, b)))
            self.gate[b] = g
            ups = list(dict.fromkeys(preds))
            if len(ups) == 1:
                mem = self.outmem[ups[0]].copy()
            elif not ups:
                mem = Mem()
            else:
                tree = self.memtree(self.walk(b, lambda p: self.outmem[p]))
                if tree is None:
                    tree = self.outmem[ups[0]]
                mem = self.mergemem(tree)
        if is_header:
            self.enter_loop(b, mem, preds)
        self.inmem[b] = mem.copy()
        self.cur = b
        for I in B["insts"]:
            n = len(self.stores)
            self.inst(I, b, mem)
            for x in self.stores[n:]:
                x["at"] = I
        self.cur = None
        self.outmem[b] = mem

    def mergemem(self, tree):
        if isinstance(tree, Mem):
            return tree.copy()
        mems, seen = [], set()

        def coll(t):
            if id(t) in seen:
                return
            seen.add(id(t))
            if isinstance(t, Mem):
                mems.append(t)
            elif t is not None:
                coll(t[1])
                coll(t[2])
        coll(tree)
        bases = set()
        for m in mems:
            bases |= set(m.chains)
        out = Mem()
        for b in bases:
            chs = {id(m.chains.get(b)): m.chains.get(b) for m in mems}
            if len(chs) == 1:
                out.chains[b] = mems[0].chains.get(b)
                continue
            lst = list(chs.values())
            # eager merge when every differing suffix consists of plain stores
            pre = self.common(lst)
            if pre is not False:
                cells = {}
                ok = True
                for ch in lst:
                    x = ch
                    while x is not pre:
                        if x[0] != "st":
                            ok = False
                            break
                        cells[(x[1], x[2])] = 1
                        x = x[4]
                    if not ok:
                        break
                if ok:
                    cur = pre
                    for (o, s) in sorted(cells):
                        v = self.ldtree(tree, b, o, s, "ptr" if self.isptrcell(lst, pre, o, s) else "")
                        cur = ("st", o, s, v, cur)
                    out.chains[b] = cur
                    continue
            out.chains[b] = ("phi", tree, None, b)
        return out

    def isptrcell(self, lst, pre, o, s):
        G = self.G
        for ch in lst:
            x = ch
            while x is not pre:
                if x[1] == o and x[2] == s:
                    for lf in G.leaves(x[3]):
                        if any(a in G.ptr for m in G.terms(lf) for a in m):
                            return True
                x = x[4]
        return False

    def prev(self, ch):
        k = ch[0]
        if k == "cp":
            return ch[5]
        if k == "phi":
            return ch[2]
        if k == "tok":
            return None
        return ch[4]

    def common(self, lst):
        """longest common suffix object of chains (identity), or False"""
        first = []
        x = lst[0]
        while x is not None:
            first.append(x)
            x = self.prev(x)
        cand = first + [None]
        for c in cand:
            ok = True
            for ch in lst[1:]:
                x = ch
                while x is not None and x is not c:
                    x = self.prev(x)
                if x is not c:
                    ok = False
                    break
            if ok:
                return c
        return False

    def econd(self, p, b):
        G = self.G
        inst = self.blocks[p]["insts"][-1]
        ss = self.succs(p)
        if inst["op"] == "br" and len(ss) == 2:
            if ss[0] == ss[1]:
                return G.T
            k = self.loopedge(p, b, ss)
            if k is not None:
                return k
            c = self.op(inst["ops"][0])
            return c if ss[0] == b else G.NOT(c)
        if inst["op"] == "switch":
            v = self.op(inst["ops"][0])
            r = G.F
            alln = G.F
            for cv, s in inst["cases"]:
                e = self.cmp("eq", v, self.op(cv))
                alln = G.OR(alln, e)
                if s == b:
                    r = G.OR(r, e)
            if inst["default"] == b:
                r = G.OR(r, G.NOT(alln))
            return r
        if inst["op"] == "invoke":
            if b == ss[0]:
                return G.T
            if inst.get("dem", "").startswith("thread-local initialization"):
                return G.F
            return G.boolatom("unwind", self.f["name"], inst["id"])
        return G.T

    def rawcond(self, p, b):
        inst = self.blocks[p]["insts"][-1]
        ss = self.succs(p)
        if inst["op"] == "br" and len(ss) == 2 and ss[0] != ss[1]:
            c = self.op(inst["ops"][0])
            return c if ss[0] == b else self.G.NOT(c)
        return self.econd(p, b)

    def loopedge(self, p, b, ss):
        """inside an iteration the loop-continue test holds by definition, and a
        loop with a single regular exit is always left through it; the exit test
        itself is kept with the loop (info["exits"])"""
        h = self.loopof.get(p)
        if h is None:
            return None
        bl = self.loopblocks[h]
        ins = [x in bl for x in ss]
        if all(ins) or not any(ins):
            return None
        out = ss[0] if ins[1] else ss[1]
        if self.isdead(out):
            return None
        if b != out:
            return self.G.T
        n = 0
        for x in bl:
            for y in self.succs(x):
                if y not in bl and not self.isdead(y):
                    n += 1
        return self.G.T if n == 1 else None

    # ---------------------------------------------------------------- loops
    def enter_loop(self, h, mem, preds):
        G = self.G
        L = self.headers[h]
        n = len(self.loops)
        lid = n
        info = dict(id=lid, header=h, L=L, phis=[], gate=self.gate[h], parent=self.loopof_parent(h), entry_mem=mem.copy())
        self.loops[h] = info
        # bases stored in the loop get a fresh version
        blocks = set(L["blocks"])
        stored_ptrs = []
        clobber_all = False
        for bb in L["blocks"]:
            for I in self.blocks[bb]["insts"]:
                if I["op"] == "store":
                    stored_ptrs.append(I["ops"][1])
                elif I["op"] in ("call", "invoke") and not self.callpure(I):
                    for k, o in enumerate(I.get("ops", [])):
                        if o[0] in ("i", "a", "g") and not (I.get("ro") and k < len(I["ro"]) and I["ro"][k]):
                            stored_ptrs.append(o)
                elif I["op"] in ("atomicrmw", "cmpxchg"):
                    stored_ptrs.append(I["ops"][0])
        bases = set()
        unknown = False
        self.preread = set()
        for o in stored_ptrs:
            r = self.rootbase(o, blocks, mem=mem)
            if r is None:
                unknown = True
            else:
                bases |= r
        if any(b in bases for b in self.preread):
            unknown = True          # a pointer was read from memory the loop writes
        info["bases"] = bases
        info["unknown_store"] = unknown
        tok = ("L%d" % lid,)
        for b in bases:
            if b in mem.chains or True:
                mem.chains[b] = ("tok", tok + ((self.ver(mem.chains.get(b)),) if mem.chains.get(b) else ()))
        if unknown:
            for b in list(mem.chains):
                if G.keys[b][0] != "alloca" if b is not None else True:
                    mem.chains[b] = ("tok", tok)

    def loopof_parent(self, h):
        return self.headers[h].get("parent")

    def rootbase(self, o, blocks, depth=0, seen=None, mem=None):
        """base atoms an operand may point into, looking through in-loop GEPs/phis"""
        G = self.G
        seen = seen if seen is not None else set()
        if depth > 40:
            return None
        if o[0] == "a":
            return {self.op(o)} if self.f["args"][o[1]]["ty"] == "ptr" else set()
        if o[0] == "g":
            t = self.op(o)
            return {self.split(t)[0]}
        if o[0] in ("ci", "cf", "null", "undef", "f", "zero"):
            return set()
        if o[0] != "i":
            return set()
        I, b = self.instmap[o[1]]
        if o[1] in seen:
            return set()
        seen.add(o[1])
        if o[1] in self.val:
            out = set()
            for lf in G.leaves(self.val[o[1]]):
                bb, _ = self.split(lf)
                if bb is not None:
                    out.add(bb)
            return out
        if I["op"] == "getelementptr":
            return self.rootbase(I["ops"][0], blocks, depth + 1, seen, mem)
        if I["op"] in ("phi",):
            out = set()
            for x in I["ops"]:
                r = self.rootbase(x, blocks, depth + 1, seen, mem)
                if r is None:
                    return None
                out |= r
            return out
        if I["op"] == "select":
            out = set()
            for x in I["ops"][1:]:
                r = self.rootbase(x, blocks, depth + 1, seen, mem)
                if r is None:
                    return None
                out |= r
            return out
        if I["op"] == "load" and I["ty"] == "ptr":
            # a pointer loaded in the loop: name it if its address is loop invariant
            if mem is not None:
                v = self.preval(o, mem, blocks)
                if v is not None:
                    out = set()
                    for lf in G.leaves(v):
                        bb, _ = self.split(lf)
                        if bb is not None:
                            out.add(bb)
                    return out
            return None
        if I["ty"] != "ptr":
            return set()
        return None

    def preval(self, o, mem, blocks, depth=0):
        """value of an operand not evaluated yet (it is inside the loop being
        entered) if it only depends on what is known at the loop's entry"""
        G = self.G
        if depth > 12:
            return None
        if o[0] != "i":
            return self.op(o)
        if o[1] in self.val:
            return self.val[o[1]]
        I, b = self.instmap[o[1]]
        if I["op"] == "getelementptr" and "coff" in I:
            p = self.preval(I["ops"][0], mem, blocks, depth + 1)
            if p is None:
                return None
            r = G.padd(p, G.const(I["coff"])) if G.top(p) is None else None
            if r is None:
                return None
            for o2, sc in I["voff"]:
                v = self.preval(o2, mem, blocks, depth + 1)
                if v is None or G.top(v) is not None:
                    return None
                r = G.padd(r, G.pmul(v, G.const(sc)))
            return r
        if I["op"] == "load":
            p = self.preval(I["ops"][0], mem, blocks, depth + 1)
            if p is None or G.top(p) is not None:
                return None
            bb, off = self.split(p)
            self.preread.add(bb)
            return self.ldb(mem, bb, off, I["size"], I["ty"])
        return None

    def headerphi(self, I, b):
        """value of a loop header phi: start + step*k if it is an affine
        induction, a mu node otherwise"""
        G = self.G
        info = self.loops[b]
        lid = info["id"]
        inits, nexts = [], []
        for o, p in zip(I["ops"], I["inc"]):
            (nexts if (p, b) in self.back else inits).append((o, p))
        init = self.op(inits[0][0]) if len(inits) == 1 else self.resolve(self.walk(b, lambda p: self.op(dict((pp, oo) for oo, pp in inits)[p])))
        # affine step?
        step = None
        if len(nexts) >= 1:
            steps = set()
            for o, p in nexts:
                steps.add(self.affstep(o, I["id"], set(info["L"]["blocks"])))
            if len(steps) == 1:
                step = steps.pop()
        k = G.mk("iter", lid)
        if step is not None and I["ty"] not in ("double", "float") and self.G.top(init) is None:
            v = G.padd(init, G.pmul(step, k))
            info["phis"].append(dict(id=I["id"], kind="aff", init=init, step=step, val=v))
            return v
        j = sum(1 for p in info["phis"] if p["kind"] == "mu" and p["init"] == init and p["ty"] == I["ty"])
        v = G.mk("mu", lid, N(init), I["ty"], j)
        if I["ty"] == "ptr":
            G.ptr.add(v)
        info["phis"].append(dict(id=I["id"], kind="mu", init=init, nexts=nexts, val=v, ty=I["ty"]))
        if I["ty"] == "i1":
            v = G.node(v, G.T, G.F)
        return v

    def affstep(self, o, phi, blocks, depth=0):
        """node for the loop-invariant step if o == phi + step"""
        G = self.G
        if depth > 20:
            return None
        if o[0] != "i":
            return None
        if o[1] == phi:
            return G.const(0)
        I, b = self.instmap[o[1]]
        if b not in blocks:
            return None
        if I["op"] in ("add", "sub"):
            x, y = I["ops"]
            a = self.affstep(x, phi, blocks, depth + 1)
            if a is not None:
                v = self.inv(y, blocks)
                if v is None:
                    return None
                return G.padd(a, v, 1 if I["op"] == "add" else -1)
            if I["op"] == "add":
                a = self.affstep(y, phi, blocks, depth + 1)
                if a is not None:
                    v = self.inv(x, blocks)
                    return None if v is None else G.padd(a, v)
            return None
        if I["op"] == "getelementptr" and "coff" in I:
            a = self.affstep(I["ops"][0], phi, blocks, depth + 1)
            if a is None:
                return None
            r = G.padd(a, G.const(I["coff"]))
            for o2, sc in I["voff"]:
                v = self.inv(o2, blocks)
                if v is None:
                    return None
                r = G.padd(r, G.pmul(v, G.const(sc)))
            return r
        if I["op"] in ("sext", "zext", "trunc"):
            return self.affstep(I["ops"][0], phi, blocks, depth + 1)
        return None

    def inv(self, o, blocks):
        if o[0] == "i":
            I, b = self.instmap[o[1]]
            if b in blocks:
                return None
            v = self.val.get(o[1])
            return v if v is not None and self.G.top(v) is None else None
        v = self.op(o)
        return v

    # --------------------------------------------------------- instructions
    def callpure(self, I):
        d = I.get("dem", "?")
        nm = I.get("callee", "")
        if nm.startswith("llvm.") and not nm.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            return True
        if I.get("readnone"):
            return True
        if nm in PURE_MATH or short(d) in PURE_MATH:
            return True
        return any(r.search(d) for r in self.pure)

    def cmp(self, pred, a, b):
        G = self.G
        try:
            return G.lift(lambda x, y: self.cmpleaf(pred, x, y), [a, b])
        except Blowup:
            return self.cmpleaf(pred, a, b)

    def ispos(self, n):
        """extents are taken to be at least one"""
        G = self.G
        return self.nonneg(n) and any(all(G.keys[a][0] == "arg" for a in m) for m in G.terms(n))

    def nonneg(self, n):
        """a sum of products of unsigned quantities"""
        G = self.G
        for m, c in G.terms(n).items():
            if c < 0:
                return False
            for a in m:
                k = G.keys[a]
                if k[0] == "iter" or (k[0] == "div" and k[1] == "u") or (k[0] == "arg" and k[1] in self.opts.get("nonneg", ())):
                    continue
                return False
        return True

    def chareq(self, t):
        """two characters, or a character and a constant: bit by bit"""
        G = self.G
        v = [(m, c) for m, c in t.items() if m]
        if not 0 < len(v) < 3 or any(len(m) != 1 or abs(c) != 1 or G.keys[m[0]][0] not in ("ld", "arg") or G.keys[m[0]][0] == "ld" and G.keys[m[0]][2] != 1 for m, c in v):
            return None
        k = t.get((), 0)
        if len(v) == 2 and (k or v[0][1] == v[1][1] or self.opts["charbits"] == "const"):
            return None
        k = -k * v[0][1] & 255
        r = G.T
        for i in range(8):
            x = [G.boolatom("bit", N(m[0]), i) for m, _ in v]
            e = G.NOT(G.XOR(*x)) if len(x) == 2 else x[0] if k >> i & 1 else G.NOT(x[0])
            r = G.AND(r, e)
        return r

    def charset(self, n, vals):
        """whether the character n is one of those: bit by bit"""
        G = self.G
        memo = {}

        def go(i, s):
            if not s:
                return G.F
            if len(s) == 1 << (8 - i):
                return G.T
            if (i, s) not in memo:
                memo[i, s] = G.ite(G.boolatom("bit", N(n), i), go(i + 1, frozenset(v for v in s if v >> i & 1)), go(i + 1, frozenset(v for v in s if not v >> i & 1)))
            return memo[i, s]
        return go(0, frozenset(vals))

    def achar(self, n):
        k = self.G.keys[n]
        return k[0] == "ld" and k[2] == 1 or k[0] == "arg" and self.f["args"][k[1]]["ty"] == "i8"

    def icmp(self, I, a, b):
        """with the range of a character decided by its bits, if asked for"""
        G, pred, w = self.G, I["pred"], I.get("width", 0)
        if not self.opts.get("charbits") or pred[0] not in "us" or w < 8:
            return self.cmp(pred, a, b)
        W = 1 << w
        S = lambda x: x % W if pred[0] == "u" else (x + W // 2) % W - W // 2
        holds = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y}[pred[1:]]

        def leaf(x, y):
            if not any(z in (G.T, G.F) for z in (x, y)) and (G.is_const(x) is None) != (G.is_const(y) is None):
                v = x if G.is_const(x) is None else y
                t = dict(G.terms(v))
                k = t.pop((), 0)
                if len(t) == 1 and len(list(t)[0]) == 1 and abs(t[list(t)[0]]) == 1 and self.achar(list(t)[0][0]):
                    (m, co), = t.items()
                    f = (lambda z: holds(S(z), S(G.is_const(y)))) if v == x else (lambda z: holds(S(G.is_const(x)), S(z)))
                    # (a wider value is the character with or without its sign)
                    sets = {frozenset(c for c in range(256) if f(co * (c - 256 if sg and c > 127 else c) + k)) for sg in (0, 1)}
                    if len(sets) == 1:
                        return self.charset(m[0], sets.pop())
            return self.cmpleaf(pred, x, y)
        try:
            return G.lift(leaf, [a, b])
        except Blowup:
            return self.cmpleaf(pred, a, b)

    def cmpleaf(self, pred, a, b):
        G = self.G
        if a in (G.T, G.F) or b in (G.T, G.F):
            if pred in ("eq", "ne") :
                r = G.XOR(a, b)
                return r if pred == "ne" else G.NOT(r)
        if pred in ("ne",):
            return G.NOT(self.cmpleaf("eq", a, b))
        if pred in ("sgt", "ugt"):
            return self.cmpleaf(pred[0] + "lt", b, a)
        if pred in ("sle", "ule"):
            return G.NOT(self.cmpleaf(pred[0] + "lt", b, a))
        if pred in ("sge", "uge") and pred != "":
            if not self._float:
                return G.NOT(self.cmpleaf(pred[0] + "lt", a, b))
        if pred == "eq":
            kb = G.keys[a] if b == G.ZERO else G.keys[b] if a == G.ZERO else ("",)
            if kb[0] == "memdiff":
                return G.F
            if kb[0] == "or" and len(kb) == 3:
                return G.AND(*(self.cmpleaf("eq", z.i, G.ZERO) for z in kb[1:]))
            d = G.padd(a, b, -1) if not self._float else None
            if d is not None:
                c = G.is_const(d)
                if c is not None:
                    return G.T if c == 0 else G.F
                ba, bb = self.split(a)[0], self.split(b)[0]
                # an object's address never equals null / another local object
                if (ba is not None and G.is_const(b) == 0 and G.keys[ba][0] in ("alloca", "global", "str", "fn")) or \
                   (bb is not None and G.is_const(a) == 0 and G.keys[bb][0] in ("alloca", "global", "str", "fn")):
                    return G.F
                # (on request) so do the objects of different arguments, and slots
                if self.opts.get("distinct") and ba is not None and bb is not None and ba != bb and ba in G.ptr and bb in G.ptr and {G.keys[ba][0], G.keys[bb][0]} <= {"arg", "call", "alloca", "global"}:
                    return G.F
                # canonical sign: compare difference with 0
                t = G.terms(d)
                if self.opts.get("charbits"):
                    r = self.chareq(t)
                    if r is not None:
                        return r
                lead = min(t)
                if t[lead] < 0:
                    d = G.pmul(d, G.const(-1))
                    t = G.terms(d)
                if self.opts.get("nowrap"):
                    if t.get((), 0) > 0 and self.nonneg(d) or self.opts.get("pos") and self.ispos(d):
                        return G.F
                    # unsigned quantities: x div c == 0  <=>  x < c;  x == 0 <=> x < 1
                    if len(t) == 1 and () not in t:
                        (m, co), = t.items()
                        k = G.keys[m[0]] if len(m) == 1 else ("",)
                        if k[0] == "div" and k[1] == "u":
                            return self.cmpleaf("slt", k[2].i, G.const(k[3]))
                        if len(m) == 1 and k[0] == "arg" and k[1] in self.opts.get("nonneg", ()):
                            return self.cmpleaf("slt", m[0], G.ONE)
                return G.boolatom("cmp", "==", N(d), N(G.ZERO))
        if pred in ("slt", "ult"):
            ca, cb = G.is_const(a), G.is_const(b)
            kb = G.keys[a] if cb == 0 else G.keys[b] if ca == -1 else ("",)
            if pred == "slt" and kb[0] in ("and", "or", "xor") and len(kb) == 3:
                # the sign bits combined
                x, y = (self.cmpleaf("slt", z.i, G.ZERO) for z in kb[1:])
                r = G.AND(x, y) if kb[0] == "and" else G.OR(x, y) if kb[0] == "or" else G.XOR(x, y)
                return r if cb == 0 else G.NOT(r)
            if self.opts.get("nowrap"):
                if pred == "ult":
                    pred = "slt"
                if cb is not None and cb >= 1 << 59:
                    return G.T          # no size reaches an eighth of the address space
                if ca is not None and ca >= 1 << 59:
                    return G.F
                if self.opts.get("pos") and pred == "slt" and cb is not None and cb <= 1 and self.ispos(a):
                    return G.F
            if ca is not None and cb is not None and (pred == "slt" or (ca >= 0 and cb >= 0)):
                return G.T if ca < cb else G.F
            if ca is not None and cb is not None:
                return G.T if ca % (1 << 64) < cb % (1 << 64) else G.F
            if a == b:
                return G.F
            if (pred == "slt" or (self.opts.get("ult_as_slt") and cb is None)) and self.split(a)[0] is None and self.split(b)[0] is None:
                # a < b  <=>  a - b < 0; leading non-constant term positive
                # (signed arithmetic is nsw: no wrap-around)
                d = G.padd(a, b, -1)
                cd = G.is_const(d)
                if cd is not None:
                    return G.T if cd < 0 else G.F
                t = dict(G.terms(d))
                c0 = t.pop((), 0)
                neg = t[min(t)] < 0
                if neg:         # !( -d - 1 < 0 )
                    t = {m: -x for m, x in t.items()}
                    c0 = -c0 - 1
                g = 0
                for x in t.values():
                    g = math.gcd(g, abs(x))
                if g > 1:       # g*y + c0 < 0  <=>  y < ceil(-c0/g)
                    t = {m: x // g for m, x in t.items()}
                    c0 = c0 // g
                r = None
                if self.opts.get("nowrap"):
                    # y div c < k  <=>  y < c*k
                    if len(t) == 1:
                        (m, co), = t.items()
                        kk = G.keys[m[0]] if len(m) == 1 and co == 1 else ("",)
                        if kk[0] == "div" and kk[1] == "u":
                            r = self.cmpleaf("slt", kk[2].i, G.const(-c0 * kk[3]))
                    pn = G.frompoly(t)
                    if r is None and -c0 <= 1 and self.opts.get("pos") and self.ispos(pn):
                        r = G.F
                if r is None and -c0 <= 0 and self.opts.get("nonneg") and self.nonneg(G.frompoly(t)):
                    r = G.F
                if r is None:
                    r = G.boolatom("cmp", "slt", N(G.frompoly(t)), N(G.const(-c0)))
                return G.NOT(r) if neg else r
            if ca is not None and pred == "slt":
                return G.NOT(G.boolatom("cmp", "slt", N(b), N(G.const(ca + 1))))
            return G.boolatom("cmp", pred, N(a), N(b))
        return G.boolatom("cmp", pred, N(a), N(b))

    _float = False

    def fcmp(self, pred, a, b):
        G = self.G

        def leaf(x, y):
            def at(p, x, y):
                if p in ("oeq", "one", "ord") and x > y:
                    x, y = y, x
                return G.boolatom("cmp", p, N(x), N(y))

            def isc(n):
                return G.keys[n][0] == "cf"
            p = pred
            if p == "ogt":
                return at("olt", y, x)
            if p == "oge":
                return at("ole", y, x)
            if p in ("olt", "ole", "oeq", "one"):
                return at(p, x, y)
            if p in ("ord", "uno"):
                if isc(y):
                    y = x
                if isc(x):
                    x = y
                r = at("ord", x, y)
                return r if p == "ord" else G.NOT(r)
            if p == "une":
                return G.NOT(at("oeq", x, y))
            if p == "ueq":
                return G.NOT(at("one", x, y))
            if p == "ult":      # !(x >= y)
                return G.NOT(at("ole", y, x))
            if p == "ule":
                return G.NOT(at("olt", y, x))
            if p == "ugt":
                return G.NOT(at("ole", x, y))
            if p == "uge":
                return G.NOT(at("olt", x, y))
            return G.T if p == "true" else G.F
        try:
            return G.lift(leaf, [a, b])
        except Blowup:
            return leaf(a, b)

    def inst(self, I, b, mem):
        G = self.G
        op = I["op"]
        ops = I.get("ops", [])
        ty = I["ty"]
        loc = I.get("loc") or []
        v = None
        if op == "phi":
            if b in self.headers:
                v = self.headerphi(I, b)
            else:
                d = {}
                for o, p in zip(I["ops"], I["inc"]):
                    d[p] = o
                fwd = [p for p in d if p in self.gate]
                vals = {p: self.op(d[p]) for p in fwd}
                if len(set(vals.values())) == 1:
                    v = next(iter(vals.values()))
                else:
                    v = self.resolve(self.walk(b, lambda p: vals[p]))
        elif op == "alloca":
            v = G.mk("alloca", self.f["name"] if self.opts.get("fnalloca") else "", self.alloca_n)
            self.alloca_n += 1
            G.ptr.add(v)
            self.defloc[v] = loc
        elif op == "load":
            p = self.op(ops[0])
            self.loads.append((p, I, b))
            try:
                v = self.ld(mem, p, I["size"], ty)
            except Blowup:
                v = G.mk("ld", N(p), I["size"], ("blow",))
            if ty == "i1":
                v = self.tobool(v)
        elif op == "store":
            p = self.op(ops[1])
            val = self.op(ops[0])
            if I.get("sty") == "i1":
                val = G.ite(val, G.ONE, G.ZERO)
            self.st(mem, p, I["size"], val, self.gate[b], loc, I.get("sty"), self.loopof.get(b))
        elif op == "getelementptr":
            if "coff" in I:
                v = self.op(ops[0])
                offs = [self.op(o) for o, _ in I["voff"]]
                scs = [s for _, s in I["voff"]]

                def leaf(p, *os):
                    r = G.padd(p, G.const(I["coff"]))
                    for x, s in zip(os, scs):
                        r = G.padd(r, G.pmul(x, G.const(s)))
                    return r
                try:
                    v = G.lift(leaf, [v] + offs)
                except Blowup:
                    v = G.mk("gep", N(v), I["coff"], tuple(N(o) for o in offs), tuple(scs))
                    G.ptr.add(v)
            else:
                v = G.mk("gep?", tuple(N(self.op(o)) for o in ops))
                G.ptr.add(v)
        elif op in ("add", "sub", "mul", "shl", "and", "or", "xor", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            v = self.ibin("add" if I.get("disjoint") else op, ty, self.op(ops[0]), self.op(ops[1]))
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            v = self.fbin(op, self.op(ops[0]), self.op(ops[1]))
        elif op == "fneg":
            v = self.L(lambda x: G.mk("fop", "fneg", N(x)), self.op(ops[0]))
        elif op == "icmp":
            v = self.icmp(I, self.op(ops[0]), self.op(ops[1]))
        elif op == "fcmp":
            v = self.fcmp(I["pred"], self.op(ops[0]), self.op(ops[1]))
        elif op == "select":
            c, x, y = (self.op(o) for o in ops)
            v = G.ite(c, x, y)
        elif op in CASTS:
            x = self.op(ops[0])
            v = self.cast(op, x, ty, ops[0])
        elif op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            def conv(x):
                if op == "fptosi" and ty == "i32":
                    # a conversion of an int to double and back is the int
                    k = G.keys[x]
                    if k[0] == "fop" and k[1] == "sitofp.double":
                        return k[2].i
                return G.mk("fop", op + "." + ty, N(x))
            v = self.L(conv, self.op(ops[0]))
        elif op == "freeze":
            v = self.op(ops[0])
        elif op == "extractvalue":
            v = self.L(lambda x: self.exv(x, tuple(I["idx"]), ty), self.op(ops[0]))
        elif op == "insertvalue":
            a, x = self.op(ops[0]), self.op(ops[1])
            v = G.mk("ins", N(a), N(x), tuple(I["idx"]))
        elif op in ("call", "invoke"):
            v = self.call(I, b, mem)
        elif op == "br":
            return
        elif op == "switch":
            return
        elif op == "ret":
            self.rets.append((b, self.op(ops[0]) if ops else None, loc))
            return
        elif op in ("unreachable", "resume"):
            return
        elif op == "fence":
            self.effects.append(Effect(name="fence", args=[], gate=self.gate[b], loc=loc, kind="fence", loop=self.loopof.get(b), fn=self))
            return
        elif op in ("atomicrmw", "cmpxchg"):
            args = [self.op(o) for o in ops]
            nm = op + ":" + I.get("rmw", "")
            v = G.mk("call", nm, tuple(N(a) for a in args), self.occ(nm, args))
            self.effects.append(Effect(name=nm, args=args, gate=self.gate[b], loc=loc, kind="atomic", loop=self.loopof.get(b), node=v, fn=self, inst=I))
            bb, _ = self.split(args[0])
            mem.chains[bb] = ("tok", (N(v),))
        else:
            if ops:
                v = G.mk("op:" + op, tuple(N(self.op(o)) for o in ops), ty)
            else:
                v = G.mk("op:" + op, ty, I["id"])
        if v is not None and ty != "void":
            self.val[I["id"]] = v
            if loc and v not in self.defloc:
                self.defloc[v] = loc

    def tobool(self, v):
        G = self.G
        if v in (G.T, G.F):
            return v
        return self.cmp("ne", v, G.ZERO)

    def L(self, f, *a):
        try:
            return self.G.lift(f, list(a))
        except Blowup:
            return f(*a)

    def exv(self, x, idx, ty):
        G = self.G
        k = G.keys[x]
        while k[0] == "ins":
            if k[3] == idx:
                return k[2].i
            x = k[1].i
            k = G.keys[x]
        n = G.mk("exv", N(x), idx)
        if ty == "ptr":
            G.ptr.add(n)
        return n

    def ibin(self, op, ty, a, b):
        G = self.G
        if ty == "i1":
            if op == "and":
                return G.AND(a, b)
            if op == "or":
                return G.OR(a, b)
            if op in ("xor", "add", "sub"):
                return G.XOR(a, b)

        def leaf(x, y):
            return self.ileaf(op, ty, x, y)
        return self.L(leaf, a, b)

    def ileaf(self, op, ty, x, y):
        G = self.G
        cx, cy = G.is_const(x), G.is_const(y)
        if op == "add":
            return G.padd(x, y)
        if op == "sub":
            return G.padd(x, y, -1)
        if op == "mul":
            return G.pmul(x, y)
        if op == "shl":
            if cy is not None:
                return G.pmul(x, G.const(1 << cy))
            return G.mk("shl", N(x), N(y))
        if op == "lshr" and cy is not None:
            return self.ileaf("udiv", ty, x, G.const(1 << cy))
        if op == "ashr" and cy is not None:
            return self.divnode("fdiv", x, 1 << cy)
        if op == "and" and cx is not None and cy is not None:
            return G.const(cx & cy)
        if op == "and":
            for u, w, c in ((x, y, cy), (y, x, cx)):
                if self.opts.get("nowrap") and c == 0xffffffff:
                    return u
                if c in (0xffffffff, 0xfffffffe, 0xfffffffc, 0xfffffff8) and all(k > 0 and len(m) == 1 and G.keys[m[0]][0] == "iter" for m, k in G.terms(u).items()) and all(k % ((1 << 32) - c) == 0 for k in G.terms(u).values()):
                    return u        # a multiple of an iteration count
                if self.opts.get("nowrap") and c in (0xfffffffe, 0xfffffffc, 0xfffffff8) and all(k % ((1 << 32) - c) == 0 for k in G.terms(u).values()):
                    return u
                if self.opts.get("posdiv") and c is not None and 1 << 30 < c < 1 << 31 and ((1 << 31) - c) & ((1 << 31) - c - 1) == 0:
                    # the sign bit is clear: only the low bits go
                    b = (1 << 31) - c
                    return G.pmul(self.divnode("udiv", u, b), G.const(b))
                if c is not None and c > 0 and (c & (c + 1)) == 0:
                    return self.ileaf("urem", ty, u, G.const(c + 1))
                if c is not None and c < 0 and (-c & (-c - 1)) == 0:
                    # x & -2^k == x - x % 2^k
                    return G.padd(u, self.ileaf("urem", ty, u, G.const(-c)), -1)
        if op in ("udiv", "sdiv", "urem", "srem") and cx == 0:
            return x            # (division by zero is rejected or undefined)
        if op in ("sdiv", "srem"):
            # truncating division is odd in both operands
            sg = 1
            tx, ty_ = G.terms(x), G.terms(y)
            if tx and tx[min(tx)] < 0:
                x, sg = G.pmul(x, G.const(-1)), -sg
            if ty_ and ty_[min(ty_)] < 0 and cy is None:
                y, sg = G.pmul(y, G.const(-1)), (-sg if op == "sdiv" else sg)
            if sg < 0:
                return G.pmul(G.const(-1), self.ileaf(op, ty, x, y))
        if op in ("udiv", "sdiv") and cy is not None and cy > 0:
            if cx is not None and cx >= 0:
                return G.const(cx // cy)
            if cy == 1:
                return x
            return self.divnode(op, x, cy)
        if op in ("urem", "srem") and cy is not None and cy > 0:
            if cx is not None and cx >= 0:
                return G.const(cx % cy)
            # x mod c == x - c*(x div c)
            d = self.divnode("udiv" if op == "urem" else "sdiv", x, cy)
            return G.padd(x, G.pmul(d, G.const(cy)), -1)
        if op == "xor":
            for u, c in ((x, cy), (y, cx)):
                if c == -1:         # ~u == -u - 1
                    return G.padd(G.const(-1), u, -1)
        if op in ("or", "and", "xor"):
            if cx is not None and cy is not None:
                return G.const(cx | cy if op == "or" else cx & cy if op == "and" else cx ^ cy)
            if x > y:
                x, y = y, x
            if op == "or" and cy == 0:
                return x
        return G.mk(op, N(x), N(y))

    def divnode(self, op, x, c):
        G = self.G
        if self.opts.get("posdiv"):
            op = "udiv"         # (only non-negative numbers are divided by constants)
        # pull out multiples of c:  (c*q + r) div c = q + r div c (exact for floor/unsigned)
        if op in ("udiv", "fdiv"):
            q, r = {}, {}
            for m, k in G.terms(x).items():
                if k % c == 0 and (op == "fdiv" or self.opts.get("nowrap")):
                    q[m] = k // c
                else:
                    r[m] = k
            rn = G.frompoly(r)
            if q:
                return G.padd(G.frompoly(q), self.divnode(op, rn, c) if G.is_const(rn) != 0 else G.ZERO)
            k = G.is_const(x)
            if k is not None and k >= 0:
                return G.const(k // c)
        if op == "sdiv" and self.opts.get("nowrap") and self.nonneg(x):
            op = "udiv"
        return G.mk("div", op[0], N(x), c)

    def fbin(self, op, a, b):
        G = self.G

        def leaf(x, y):
            if op in ("fadd", "fmul") and x > y:
                x, y = y, x
            return G.mk("fop", op, N(x), N(y))
        return self.L(leaf, a, b)

    def cast(self, op, x, ty, o):
        G = self.G
        if op in ("zext", "sext") and (x in (G.T, G.F) or self.isbool(x)):
            return G.ite(x, G.ONE if op == "zext" else G.const(-1), G.ZERO)
        if op == "trunc" and ty == "i1":
            return self.tobool(self.ibin("and", "i32", x, G.ONE))
        if op == "trunc" and ty in ("i8", "i16") and not self.isbool(x):
            w = int(ty[1:])

            def narrow(v):
                k = G.keys[v]
                if k[0] == "c" or G.is_const(v) is not None:
                    c = G.is_const(v)
                    return v if c is not None and -(1 << (w - 1)) <= c < 1 << w else G.mk("trunc", N(v), ty)
                if k[0] == "ld" and isinstance(k[2], int) and k[2] * 8 <= w or k[0] in ("splat", "mu", "bot", "undef"):
                    return v
                if k[0] == "trunc":
                    return v if int(k[2][1:]) <= w else narrow(k[1].i)
                return G.mk("trunc", N(v), ty)
            return self.L(narrow, x)
        if op == "trunc":
            return x if self.opts.get("transparent_trunc", True) else self.L(lambda v: G.mk("trunc", N(v), ty), x)
        if op == "bitcast" and ty in ("double", "float") or op == "bitcast" and ty.startswith("i"):
            return self.L(lambda v: G.mk("bitcast", N(v), ty), x)
        return x

    def isbool(self, n):
        G = self.G
        return all(l in (G.T, G.F, G.BOT) for l in G.leaves(n))

    def const_cells(self, src, n):
        """the integers a copy of n bytes of a constant object stores"""
        G = self.G
        if n is None or not 0 < n <= 64 or G.top(src) is not None:
            return None
        s, so = self.split(src)
        so = G.is_const(so)
        if so is None or s is None or G.keys[s][0] != "global":
            return None
        c = sorted((o - so, sz, v) for (o, sz), v in self.f.get("consts", {}).get(G.keys[s][1], {}).items() if so <= o and o + sz <= so + n)
        return c if sum(x[1] for x in c) == n else None

    def occ(self, nm, args):
        key = (nm, tuple(args))
        self.callcount[key] = self.callcount.get(key, 0) + 1
        return self.callcount[key] - 1

    def call(self, I, b, mem):
        G = self.G
        nm, dem = I["callee"], I["dem"]
        if dem.startswith("thread-local initialization"):
            return None
        ops = I.get("ops", [])
        ty = I["ty"]
        loc = I.get("loc") or []
        args = [self.op(o) for o in ops]
        base = nm
        if nm.startswith("llvm."):
            parts = nm.split(".")
            if parts[1] in ("memcpy", "memmove"):
                n = G.is_const(args[2])
                d, off = self.split(args[0])
                cells = self.const_cells(args[1], n)
                if cells and G.top(args[0]) is None:
                    for o, s, v in cells:
                        at = G.padd(off, G.const(o))
                        mem.chains[d] = ("st", at, s, G.const(v), mem.chains.get(d))
                        self.stores.append(dict(base=d, off=at, size=s, val=G.const(v), gate=self.gate[b], loc=loc, loop=self.loopof.get(b), ty="i%d" % (8 * s)))
                    return None
                if n is not None and G.top(args[0]) is None and G.top(args[1]) is None:
                    mem.chains[d] = ("cp", off, n, mem.copy(), args[1], mem.chains.get(d))
                else:
                    mem.chains[d] = ("tok", ("memcpy", N(args[1]), N(args[2])))
                self.stores.append(dict(base=d, off=off, size=n, val=G.mk("memcpy", N(args[1])), gate=self.gate[b], loc=loc, loop=self.loopof.get(b), ty="memcpy", src=args[1]))
                return None
            if parts[1] == "memset":
                n = G.is_const(args[2])
                d, off = self.split(args[0])
                if n is not None:
                    mem.chains[d] = ("ms", off, n, args[1], mem.chains.get(d))
                else:
                    mem.chains[d] = ("tok", ("memset", N(args[1]), N(args[2])))
                self.stores.append(dict(base=d, off=off, size=n, val=args[1], gate=self.gate[b], loc=loc, loop=self.loopof.get(b), ty="memset"))
                return None
            if parts[1] in ("smax", "smin", "umax", "umin"):
                if parts[1] == "umax" and G.ONE in args:
                    x = args[0] if args[1] == G.ONE else args[1]
                    return G.ite(self.cmp("eq", x, G.ZERO), G.ONE, x)
                p = "slt" if parts[1][0] == "s" else "ult"
                c = self.cmp(p, args[0], args[1])
                lo, hi = G.ite(c, args[0], args[1]), G.ite(c, args[1], args[0])
                return lo if parts[1].endswith("min") else hi
            if parts[1] == "expect":
                return args[0]
            if parts[1] == "abs":
                c = self.cmp("slt", args[0], G.ZERO)
                return G.ite(c, self.ibin("sub", ty, G.ZERO, args[0]), args[0])
            if parts[1] in ("usub", "uadd") and parts[2] == "sat":
                def sat(x, y):
                    a, c = G.is_const(x), G.is_const(y)
                    if parts[1] == "usub" and a is not None and c is not None:
                        w = (1 << int(parts[-1][1:])) - 1
                        return G.const(max((a & w) - (c & w), 0))
                    return G.mk("call", parts[1] + "sat", N(x), N(y))
                return self.L(sat, args[0], args[1])
            if parts[1] == "is" and parts[2] == "fpclass":
                m = G.is_const(args[1])
                if m == 3:
                    return self.fcmp("uno", args[0], args[0])
                if m == 1020:
                    return self.fcmp("ord", args[0], args[0])
                return self.L(lambda x: G.boolatom("cmp", "fpclass", N(x), N(args[1])), args[0])
            base = parts[1] + ("f" if parts[-1] == "f32" else "")
            if parts[1] in ("eh", "stacksave", "stackrestore", "trap", "va_start", "va_end"):
                pass
            else:
                return self.L(lambda *x: G.mk("call", base, *map(N, x)), *args)
        if nm == "verif_bound":
            return None
        if base == "strlen":
            r = G.lift(lambda x: G.const(len(G.keys[x][1])) if G.keys[x][0] == "str" else G.mk("call", base, N(x)), args)
            if G.is_const(r) is not None:
                return r
        if base in ("memcmp", "bcmp") and G.is_const(args[2]) is not None and G.is_const(args[2]) <= 32:
            n = G.is_const(args[2])
            by = [[self.ld(mem, G.padd(a, G.const(i)), 1, "i8") for a in args[:2]] for i in range(n)]
            eq = G.T
            for x, y in by:
                eq = G.AND(eq, self.cmp("eq", x, y))
            return G.ite(eq, G.ZERO, self.L(lambda *v: G.mk("memdiff", *map(N, v)), *(v for xy in by for v in xy)))
        for rx, by in (self.opts.get("pureref") or {}).items():
            if re.search(rx, dem):
                # a value of its scalar arguments and of what its reference
                # arguments refer to
                vs = []
                if "model" in by:
                    if self.gate[b] == G.F:
                        return G.BOT
                    args = [G.ite(self.gate[b], x, G.BOT) for x in args]
                    r = by["model"](self, mem, args)
                    at = 0
                    for k, lay in (by.get("out") or {}).items():
                        for j, (o, sz, t) in enumerate(lay):
                            self.st(mem, G.padd(args[k], G.const(o)), sz, r[at + j], self.gate[b], loc, ty=t, loop=self.loopof.get(b))
                        at += len(lay)
                    return args[by["ret"]] if "ret" in by else r if not by.get("out") else r[at] if len(r) > at else None
                for k, a in enumerate(args):
                    if k in (by.get("out") or {}) and k not in by:
                        continue
                    if ops and I.get("argty") and I["argty"][k] != "ptr" or k not in by:
                        vs.append(a)
                    else:
                        vs += [self.ld(mem, G.padd(a, G.const(o)), sz, t) for o, sz, t in by[k]]
                nmc = by.get("as") or dem.replace(" (.rec)", "")

                def leaf(*x):
                    x = list(x)
                    if by.get("commut") and x[:by["commut"]] > x[by["commut"]:2 * by["commut"]]:
                        n = by["commut"]
                        x = x[n:2 * n] + x[:n] + x[2 * n:]
                    r = by["fold"](G, x) if "fold" in by else None
                    if isinstance(r, (list, tuple)):
                        a = G.mk("undef")
                        for j, v in enumerate(r):
                            a = G.mk("ins", N(a), N(v), (j,))
                        r = a
                    return G.mk("call", nmc, *map(N, x)) if r is None else r
                if by.get("effect"):
                    # something that happens, too
                    vs = by["pre"](G, vs) if "pre" in by else vs
                    r = G.mk("call", nmc, tuple(N(x) for x in vs), self.occ(nmc, vs))
                    e = Effect(name=nmc, args=vs, gate=self.gate[b], loc=loc, kind="call", loop=self.loopof.get(b), node=r, inst=I, fn=self)
                    e.argmem = mem.copy()
                    self.effects.append(e)
                else:
                    r = self.L(leaf, *vs)
                at = 0
                for k, lay in (by.get("out") or {}).items():
                    for j, (o, sz, t) in enumerate(lay, at):
                        self.st(mem, G.padd(args[k], G.const(o)), sz, self.L(lambda x: self.exv(x, (j,), t), r), self.gate[b], loc, ty=t, loop=self.loopof.get(b))
                    at += len(lay) if by.get("cat") else 0
                if by.get("out") or "ret" in by:
                    return args[by["ret"]] if "ret" in by else None
                if ty == "i1":
                    r = self.L(lambda x: x if x in (G.T, G.F) else G.node(x, G.T, G.F), r)
                return r
        if self.callpure(I):
            nmn = base if base in PURE_MATH else (short(dem) if short(dem) in PURE_MATH else dem)
            r = self.L(lambda *x: G.mk("call", nmn, *map(N, x)), *args)
            if ty == "ptr":
                for l in G.leaves(r):
                    G.ptr.add(l)
            if ty == "i1":
                r = self.L(lambda x: G.node(x, G.T, G.F), r)
            # pure functions returning through sret / reading by reference are
            # keyed by the content they read when the spec says so
            return r
        name = dem
        argsig = args
        # opaque: value keyed by callee, arguments and occurrence
        v = G.mk("call", name, tuple(N(a) for a in args), self.occ(name, args))
        if ty == "ptr":
            G.ptr.add(v)
        e = Effect(name=name, args=args, gate=self.gate[b], loc=loc, kind="call", loop=self.loopof.get(b), node=v, inst=I, fn=self)
        e.argmem = mem.copy()
        self.effects.append(e)
        if name.startswith(("operator delete", "free(")) or name == "free":
            return v
        hook = self.opts.get("call_hook")
        if hook:
            r = hook(self, I, name, args, mem, v, b)
            if r is not None:
                return r
        for k, (o, a) in enumerate(zip(ops, args)):
            if I.get("ro") and k < len(I["ro"]) and I["ro"][k]:
                continue
            for lf in G.leaves(a):
                bb, off = self.split(lf)
                if bb is not None and G.keys[bb][0] not in ("str", "fn"):
                    mem.chains[bb] = ("tok", (N(v), k))
        if ty == "i1":
            v = G.node(v, G.T, G.F)
        return v

    # --------------------------------------------------------------- finish
    def finish(self):
        G = self.G
        # loop exit conditions and mu nexts
        for h, info in self.loops.items():
            L = info["L"]
            blocks = set(L["blocks"])
            for p in info["phis"]:
                if p["kind"] == "mu":
                    p["nextv"] = [self.op(o) if not (o[0] == "i" and o[1] not in self.val) else None for o, _ in p["nexts"]]
            ex = G.F
            exits = []
            for b in L["blocks"]:
                if b not in self.gate:
                    continue
                for s in self.succs(b):
                    if s not in blocks:
                        dead = self.isdead(s)
                        c = self.rawcond(b, s)
                        exits.append((b, s, G.AND(self.gate[b], c), c, dead))
            info["exits"] = exits
        self.outcome = None
        live = [(b, v, l) for b, v, l in self.rets]
        self.retmem = None
        if len(live) == 1:
            b, v, l = live[0]
            self.ret = v
            self.retmem = self.outmem[b]
            self.retgate = self.gate[b]
        elif live:
            # virtual join: gates are disjoint
            self.retgate = G.F
            v0 = None
            r = G.BOT
            tree = None
            for b, v, l in live:
                self.retgate = G.OR(self.retgate, self.gate[b])
                if v is not None:
                    r = G.ite(self.gate[b], v, r)
                tree = self.outmem[b] if tree is None else (self.gate[b], self.outmem[b], tree)
            self.ret = r if live[0][1] is not None else None
            self.retmem = self.mergemem(tree)
        else:
            self.ret = None
            self.retgate = G.F
        # aborting ends
        self.aborts = []
        self.bounds = []    # where a loop would go round more often than unrolled
        for b in self.order:
            t = self.blocks[b]["insts"][-1]
            if t["op"] == "unreachable":
                (self.bounds if any(i.get("callee") == "verif_bound" for i in self.blocks[b]["insts"]) else self.aborts).append((b, self.gate[b]))
        if any(g != G.F for _, g in self.bounds):
            raise Bounded()

    def inloop(self, h, outer):
        """is loop h the loop `outer` or nested in it"""
        while h is not None:
            if h == outer:
                return True
            h = self.headers[h].get("parent")
        return False

    def isdead(self, b):
        t = self.blocks[b]["insts"][-1]
        return t["op"] in ("unreachable", "resume")

    def final(self, base):
        """[(off,size)] cells explicitly written for a base at return"""
        cells = {}
        for s in self.stores:
            if s["base"] == base and s["size"] is not None:
                cells[(s["off"], s["size"])] = s
        return cells

    def read(self, base, off, size, ty=""):
        return self.ldb(self.retmem, base, off, size, ty)
