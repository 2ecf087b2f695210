"""Path analysis of one function of the irx dump: every path of its normal
(non exceptional) control flow graph, with the branch facts that select it, the
sequence of calls, and which values flow into which objects through those calls.
Values are syntactic terms; nothing is executed and no condition is solved: a
branch is decided only by a constant or by an earlier branch on the same term,
or by the caller's `decide`.  Loops are taken zero times and `unroll` times."""
from common import ToolError


class Limit(Exception):
    pass


IGN = ("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.stacksave", "llvm.stackrestore", "llvm.trap")


def text(consts, g, off=0):
    """bytes of a constant string, None if it is not one"""
    c = consts.get(g)
    if c is None:
        return None
    out = []
    k = off
    while (k, 1) in c:
        v = c[(k, 1)] & 255
        if v == 0:
            return bytes(out).decode("latin1")
        out.append(v)
        k += 1
    return None


def bits(ty):
    return int(ty[1:]) if ty[:1] == "i" and ty[1:].isdigit() else 0


def wrap(x, n):
    if not n:
        return x
    x &= (1 << n) - 1
    return x - (1 << n) if n > 1 and x >> (n - 1) else x


def fold(op, pred, a, b, n):
    if op == "icmp":
        if pred[0] == "u":
            a, b = a & (2**64 - 1), b & (2**64 - 1)
        return int({"eq": a == b, "ne": a != b, "gt": a > b, "lt": a < b, "ge": a >= b, "le": a <= b}[pred if pred in ("eq", "ne") else pred[1:]])
    r = {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}.get(op)
    if op == "shl" and 0 <= b < 64:
        r = a << b
    return None if r is None else wrap(r, n)


class Path:
    def __init__(self):
        self.facts = {}      # term -> bool / switch value
        self.order = []
        self.calls = []      # dict(dem, args, res, loc, into)
        self.mem = {}        # (base, off) -> value
        self.cont = {}       # base -> set of tokens
        self.alias = {}      # pointer result -> bases it may point into
        self.env = {}
        self.end = None
        self.ret = None
        self.visits = {}

    def clone(self):
        q = Path()
        q.facts = dict(self.facts)
        q.order = list(self.order)
        q.calls = list(self.calls)
        q.mem = dict(self.mem)
        q.cont = {k: set(v) for k, v in self.cont.items()}
        q.alias = dict(self.alias)
        q.env = dict(self.env)
        q.visits = dict(self.visits)
        return q


class Walk:
    def __init__(self, f, decide=None, unroll=1, limit=4000, noreturn=(), valued=None, args=None, stores=False):
        self.f = f
        self.B = {b["id"]: b for b in f["blocks"]}
        self.consts = f.get("consts", {})
        self.decide = decide or (lambda t: None)
        self.unroll = unroll
        self.limit = limit
        self.noreturn = noreturn
        self.valued = valued          # dem -> True if the result is a value named by its arguments
        self.steps = 0
        self.stores = stores          # stores to memory that is not a local are events too
        self.args = args or {}        # argument number -> constant it is fixed to

    # ---- values
    def val(self, p, o):
        k = o[0]
        if k == "i":
            return p.env.get(o[1], ("undef",))
        if k == "a":
            return ("c", self.args[o[1]]) if o[1] in self.args else ("a", o[1])
        if k == "ci":
            return ("c", int(o[1]))
        if k == "g":
            return ("p", ("g", o[1]), int(o[2]) if len(o) > 2 else 0)
        if k == "null":
            return ("c", 0)
        if k == "c" and o[1:] == ["null"]:
            return ("c", 0)
        return tuple(str(x) for x in o)

    def base(self, v):
        if v[0] == "p":
            return v[1]
        if v[0] in ("a", "call", "load", "phi", "sel"):
            return v
        return None

    def bases(self, p, v):
        """the objects a pointer may point into"""
        b = self.base(v)
        if b is None:
            return []
        out, todo = [], [b]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            todo += p.alias.get(x, ())
        return out

    def tokens(self, p, v):
        out = set()
        if v[0] == "c":
            out.add(v)
        for b in self.bases(p, v):
            out |= p.cont.get(b, set())
            if b[0] == "g":
                out.add(("g", b[1]))
                t = text(self.consts, b[1], v[2] if v[0] == "p" and v[1] == b else 0)
                if t is not None:
                    out.add(("s", t))
            else:
                out.add(b)
        if v[0] == "e":
            for x in v[2:]:
                if isinstance(x, tuple):
                    out |= self.tokens(p, x)
        return out

    def run(self):
        self.done = []
        p = Path()
        entry = self.f["blocks"][0]["id"]
        todo = [(p, entry, None, 0)]
        while todo:
            p, b, pred, start = todo.pop()
            while True:
                self.steps += 1
                if len(self.done) + len(todo) > self.limit or self.steps > 200000:
                    raise Limit(self.f["name"])
                if not start:
                    p.visits[b] = p.visits.get(b, 0) + 1
                if p.visits[b] > 1 + self.unroll:
                    p.end = "cut"
                    break
                nxt = self.block(p, b, pred, start)
                if not nxt:
                    break
                for q, s, k in nxt[1:]:
                    todo.append((q, s, pred if k else b, k))
                p, s, start = nxt[0]
                b, pred = s, pred if start else b
            if p.end != "cut":
                self.done.append(p)
        return self.done

    def fork(self, p, c, loc):
        """both values of an undecided condition"""
        if len(p.facts) > 60:
            raise Limit(self.f["name"])
        q = p.clone()
        t = self.norm(c)
        p.facts[t[0]] = t[1]
        q.facts[t[0]] = not t[1]
        p.order.append((t[0], t[1], loc))
        q.order.append((t[0], not t[1], loc))
        return p, q

    def block(self, p, bid, pred, start):
        B = self.B[bid]
        phis = {}
        for n, I in enumerate(B["insts"]):
            if n < start:
                continue
            op = I["op"]
            if op == "phi":
                v = ("undef",)
                for o, b in zip(I["ops"], I["inc"]):
                    if b == pred:
                        v = self.val(p, o)
                phis[I["id"]] = v
                continue
            if phis:
                p.env.update(phis)
                phis = {}
            if op in ("call", "invoke"):
                r = self.call(p, I)
                if r:
                    p.end = r
                    return None
                if op == "invoke":
                    return [(p, I["succ"][0], 0)]
                continue
            if op == "br":
                if len(I["succ"]) == 1:
                    return [(p, I["succ"][0], 0)]
                c = self.val(p, I["ops"][0])
                d = self.truth(p, c)
                if d is not None:
                    return [(p, I["succ"][0 if d else 1], 0)]
                p, q = self.fork(p, c, I.get("loc"))
                return [(p, I["succ"][0], 0), (q, I["succ"][1], 0)]
            if op == "select" or op in ("and", "or") and I["ty"] == "i1":
                # values chosen by a condition: one path per choice
                c = self.val(p, I["ops"][0])
                d = self.truth(p, c)
                if d is None:
                    p, q = self.fork(p, c, I.get("loc"))
                    return [(p, bid, n), (q, bid, n)]
                if op == "select":
                    p.env[I["id"]] = self.val(p, I["ops"][1 if d else 2])
                else:
                    p.env[I["id"]] = ("c", int(d)) if d == (op == "or") else self.val(p, I["ops"][1])
                continue
            if op == "switch":
                c = self.val(p, I["ops"][0])
                k = ("switch", c)
                out = []
                for n, s in enumerate(I["succ"]):
                    if k in p.facts and p.facts[k] != n:
                        continue
                    q = p.clone()
                    q.facts[k] = n
                    out.append((q, s, 0))
                return out
            if op == "ret":
                p.end = "ret"
                p.ret = self.val(p, I["ops"][0]) if I["ops"] else None
                return None
            if op in ("unreachable", "resume"):
                p.end = op
                return None
            p.env[I["id"]] = self.inst(p, I)
        raise ToolError("block without terminator in %s" % self.f["name"])

    def norm(self, c):
        """(term, polarity): comparisons are stored in a positive form"""
        pol = True
        while c[0] == "e" and c[1] == "xor" and c[3] == ("c", 1) or c[0] == "e" and c[1] == "xor" and c[3] == ("c", -1):
            c, pol = c[2], not pol
        if c[0] == "e" and c[1] in ("icmp ne", "icmp uge", "icmp ule", "icmp sge", "icmp sle"):
            o = {"ne": "eq", "uge": "ult", "ule": "ugt", "sge": "slt", "sle": "sgt"}[c[1][5:]]
            c, pol = ("e", "icmp " + o) + c[2:], not pol
        # a boolean compared with zero is the boolean
        if c[0] == "e" and c[1] == "icmp eq" and c[3] == ("c", 0) and self.isbool(c[2]):
            t, q = self.norm(c[2])
            return t, q != pol
        return c, pol

    def isbool(self, c):
        return c[0] == "e" and (c[1].startswith("icmp") or c[1].startswith("fcmp")) or c[0] == "call" and c[3] == "i1"

    def truth(self, p, c):
        if c[0] == "c":
            return bool(c[1])
        t, pol = self.norm(c)
        if t[0] == "c":
            return bool(t[1]) == pol
        if t in p.facts:
            return p.facts[t] == pol
        d = self.decide(t)
        if d is not None:
            return bool(d) == pol
        return None

    def inst(self, p, I):
        op = I["op"]
        v = [self.val(p, o) for o in I.get("ops", [])]
        if op == "alloca":
            return ("p", ("alloca", I["id"]), 0)
        if op == "getelementptr":
            b = v[0]
            off = I["coff"]
            for o, sc in I.get("voff") or ():
                x = self.val(p, o)
                if x[0] != "c":
                    return ("e", "gep") + tuple(v) + (I["coff"],)
                off += x[1] * sc
            if b[0] == "c":
                return ("c", b[1] + off)
            if b[0] == "p":
                return ("p", b[1], b[2] + off)
            if b[0] in ("a", "call", "load"):
                return ("p", b, off)
            return ("e", "gep") + tuple(v) + (I["coff"],)
        if op == "load":
            a = v[0]
            k = (a[1], a[2]) if a[0] == "p" else (a, 0)
            if k in p.mem:
                return p.mem[k]
            return ("load",) + k + (p.visits.get(("ver", k[0]), 0),)
        if op == "store":
            a = v[1]
            k = (a[1], a[2]) if a[0] == "p" else (a, 0)
            p.mem[k] = v[0]
            if self.stores and k[0][0] != "alloca":
                p.calls.append(dict(deref=[None, None], dem="<store>", args=[v[0], a], res=("void",), loc=I.get("loc"), tokens=set(), argtok=[set(), set()]))
            for b in self.bases(p, a):
                p.cont.setdefault(b, set()).update(self.tokens(p, v[0]))
            return ("void",)
        if op == "trunc" and v[0][0] == "c":
            return ("c", wrap(v[0][1], bits(I["ty"])))
        if op == "zext" and v[0][0] == "c" and v[0][1] < 0:
            return ("e", "zext", v[0])
        if op in ("bitcast", "freeze", "trunc", "zext", "sext", "ptrtoint", "inttoptr", "addrspacecast"):
            return v[0]
        if op in ("cmpxchg", "atomicrmw", "fence"):
            r = ("call", "<%s>" % op, len(p.calls), I.get("ty"))
            p.calls.append(dict(deref=[None] * len(v), dem="<%s>" % op, args=v, res=r, loc=I.get("loc"), tokens=set(), argtok=[set()] * len(v)))
            return r
        name = op + (" " + I["pred"] if "pred" in I else "")
        if op == "icmp" and v[0][0] == "c" and v[1][0] != "c":
            sw = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
            name, v = "icmp " + sw[I["pred"]], [v[1], v[0]]
        if len(v) == 2 and v[0][0] == "c" and v[1][0] == "c":
            r = fold(op, I.get("pred"), v[0][1], v[1][1], bits(I["ty"]))
            if r is not None:
                return ("c", r)
        if op in ("extractvalue", "insertvalue"):
            return ("e", name) + tuple(v) + (str(I.get("idx", I["id"])),)
        return ("e", name) + tuple(v)

    def call(self, p, I):
        dem = I.get("dem") or "<indirect>"
        if dem.startswith(IGN):
            return None
        v = [self.val(p, o) for o in I["ops"]]
        if dem.startswith("llvm.threadlocal.address"):
            p.env[I["id"]] = v[0]
            return None
        n = len(p.calls)
        if self.valued and self.valued(dem):
            res = ("call", dem, tuple(v), I["ty"])
        else:
            res = ("call", dem, n, I["ty"])
        toks = set()
        for x in v:
            toks |= self.tokens(p, x)
        der = [p.mem.get((x[1], x[2]) if x[0] == "p" else (x, 0)) for x in v]
        p.calls.append(dict(deref=der, dem=dem, args=v, res=res, loc=I.get("loc"), tokens=toks, argtok=[self.tokens(p, x) for x in v]))
        al = []
        for k, x in enumerate(v):
            ro = I.get("ro") and k < len(I["ro"]) and I["ro"][k]
            bs = [b for b in self.bases(p, x) if not (b[0] == "g" and b[1] in self.consts)]
            if not ro:
                for b in bs:
                    p.cont.setdefault(b, set()).update(toks)
                    for m in [m for m in p.mem if m[0] == b]:
                        del p.mem[m]
                    p.visits[("ver", b)] = n + 1
            al += bs
        for m in [m for m in p.mem if m[0][0] == "g"]:
            del p.mem[m]
        if "::~" in dem and v:
            for b in self.bases(p, v[0]):
                if b[0] == "alloca":
                    p.cont.pop(b, None)
        if I["ty"] != "void":
            p.env[I["id"]] = res
            p.cont.setdefault(res, set()).update(toks)
            if I["ty"] == "ptr":
                p.alias[res] = tuple(al)
        if I.get("noreturn") or any(dem.startswith(x) for x in self.noreturn):
            return "noreturn"
        return None
