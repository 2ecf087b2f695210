"""std::string of known length with unknown characters, as a value.

A string is the list of its characters (`chv`), a diagram of such lists where its
length depends on conditions; searches, substrings, comparisons and edits compute
on these lists exactly.  A list of strings (std::vector, std::list) is the list of
its entries (`lst`).  Strings that are not values yet (a pointer and a constant
length) are read character by character."""
from vg import N, Blowup

STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
SS = "^" + STR + "::"
W = [(0, 8, "ptr"), (8, 8, "i64"), (16, 8, "i64"), (24, 8, "i64")]
V3 = [(0, 8, "ptr"), (8, 8, "ptr"), (16, 8, "ptr")]
L3 = [(0, 8, "ptr"), (8, 8, "ptr"), (16, 8, "i64")]
LONGEST = 16


def ldstr(G, b, off):
    k, i = G.keys[b], G.is_const(off)
    if i is None:
        raise Blowup()
    return k[1 + i].i if 0 <= i < len(k) - 1 else G.ZERO if i == len(k) - 1 else G.BOT


def mk(F, cs):
    """the string of these characters (each may depend on conditions)"""
    if F.opts.get("lazychars"):
        return F.G.mk("chv", *map(N, cs))
    return F.G.lift(lambda *c: F.G.mk("chv", *map(N, c)), list(cs))


def raw(F, mem, p, n):
    if n is None or n > LONGEST:
        raise Blowup()
    return mk(F, [F.ld(mem, F.G.padd(p, F.G.const(i)), 1, "i8") for i in range(n)])


def words(F, mem, w0, w1):
    G = F.G

    def leaf(p, n):
        if G.keys[p][0] == "chv":
            return p
        if G.keys[p][0] == "str" and G.is_const(n) is not None:
            return lit(F, p, G.is_const(n))
        return raw(F, mem, p, G.is_const(n))
    return G.lift(leaf, [w0, w1])


def at(F, mem, p):
    """the string object p points to"""
    return words(F, mem, F.ld(mem, p, 8, "ptr"), F.ld(mem, F.G.padd(p, F.G.const(8)), 8, "i64"))


def lit(F, p, n=None):
    G = F.G
    b, off = F.split(p) if G.keys[p][0] != "str" else (p, G.ZERO)
    o = G.is_const(off)
    if b is None or G.keys[b][0] != "str" or o is None:
        raise Blowup()
    t = G.keys[b][1][o:]
    if n is not None and n > len(t):
        raise Blowup()
    return G.mk("chv", *(N(G.const(ord(c))) for c in (t if n is None else t[:n])))


def cstr(F, mem, p, n=None):
    """characters a const char* refers to"""
    G = F.G

    def leaf(p, *n):
        m = G.is_const(n[0]) if n else None
        if n and m is None:
            raise Blowup()
        b = F.split(p)[0]
        if G.keys[p][0] == "str" or b is not None and G.keys[b][0] == "str":
            return lit(F, p, m)
        if m is None:
            raise Blowup()
        return raw(F, mem, p, m)
    return G.lift(leaf, [p] + ([n] if n is not None else []))


def cs(G, v):
    r = [x.i for x in G.keys[v][1:]]
    if any(G.keys[x][0] == "printed" for x in r):
        raise Blowup()
    return r


def out(F, v):
    """the words of a string object with that value"""
    G = F.G
    def size(x):
        if any(G.keys[c.i][0] == "printed" for c in G.keys[x][1:]):
            return G.mk("call", "size of", N(x))
        return G.const(len(G.keys[x]) - 1)
    return [v, G.lift(size, [v])] + [G.lift(lambda x: G.mk("chw", N(x), j), [v]) for j in (2, 3)]


def cat(F, *vs):
    G = F.G
    return G.lift(lambda *x: G.mk("chv", *(c for v in x for c in G.keys[v][1:])), list(vs))


def sub(F, s, pos, n):
    G = F.G

    def leaf(s, p, k):
        c, p, k = cs(G, s), G.is_const(p), G.is_const(k)
        if p is None or k is None:
            raise Blowup()
        if p < 0 or p > len(c):
            return G.BOT      # std::out_of_range: see the paths that lead there
        return G.mk("chv", *map(N, c[p:] if k < 0 else c[p:p + k]))
    return G.lift(leaf, [s, pos, n])


def cut(F, s, pos, n):
    G = F.G

    def leaf(s, p, k):
        c, p, k = cs(G, s), G.is_const(p), G.is_const(k)
        if p is None or k is None:
            raise Blowup()
        if p < 0 or p > len(c):
            return G.BOT
        return G.mk("chv", *map(N, c[:p] + (c[p + k:] if k >= 0 else [])))
    return G.lift(leaf, [s, pos, n])


def any_of(F, c, q):
    G, r = F.G, F.G.F
    for x in q:
        r = G.OR(r, F.cmp("eq", c, x))
    return r


def search(F, kind, s, q, pos):
    G = F.G

    def leaf(s, q, pos):
        c, q, p = cs(G, s), cs(G, q), G.is_const(pos)
        if p is None:
            raise Blowup()
        n, m = len(c), len(q)
        whole = kind in ("find", "rfind")
        back = kind in ("rfind", "find_last_of", "find_last_not_of")
        top = n - m if whole else n - 1
        if back:
            idx = range(0, min(top, p if p >= 0 else top) + 1)      # the last one wins
        else:
            idx = reversed(range(p, top + 1)) if p >= 0 else []     # the first one wins
        r = G.const(-1)
        for i in idx:
            if whole:
                t = G.T
                for j in range(m):
                    t = G.AND(t, F.cmp("eq", c[i + j], q[j]))
            else:
                t = any_of(F, c[i], q)
                t = G.NOT(t) if "not" in kind else t
            r = G.ite(t, G.const(i), r)
        return r
    return G.lift(leaf, [s, q, pos])


def differ(F, s, q):
    """compare(): zero where equal"""
    G = F.G

    def leaf(s, q):
        a, b = cs(G, s), cs(G, q)
        if len(a) != len(b):
            return G.const(1 if len(a) > len(b) else -1) if not (a and b) else G.mk("memdiff", N(s), N(q))
        t = G.T
        for x, y in zip(a, b):
            t = G.AND(t, F.cmp("eq", x, y))
        return G.ite(t, G.ZERO, G.mk("memdiff", N(s), N(q)))
    return G.lift(leaf, [s, q])


def entries(F, mem, p, islist):
    G = F.G
    w0 = F.ld(mem, p, 8, "ptr")
    n = F.ld(mem, G.padd(p, G.const(16 if islist else 8)), 8, "i64" if islist else "ptr")

    def leaf(x, n):
        if G.keys[x][0] == "lst":
            return x
        if G.is_const(n) == 0:
            return G.mk("lst")
        return G.mk("lst", "rest", N(x))
    return G.lift(leaf, [w0, n])


def lout(F, v, islist):
    G = F.G
    return [v, G.lift(lambda x: G.mk("lstw", N(x), 1), [v]), G.lift(lambda x: G.const(len(G.keys[x]) - 1) if islist and "rest" not in G.keys[x] else G.mk("lstw", N(x), 2), [v])]


def push(F, mem, p, v, islist):
    G = F.G
    return lout(F, G.lift(lambda l, x: G.mk(*G.keys[l], N(x)), [entries(F, mem, p, islist), v]), islist)


def A(*a):
    return r"\(" + ", ".join(a) + r"\)"


M = {}


def inplace(rx, f):
    M[SS + rx] = {"out": {0: W}, 0: W, "outargs": True, "ret": 0, "as": "string", "model": lambda F, mem, a: out(F, f(F, mem, a))}


def fresh(rx, f):
    M[rx] = {"out": {0: W}, "outargs": True, "as": "string", "model": lambda F, mem, a: out(F, f(F, mem, a))}


def value(rx, f):
    M[SS + rx] = {"as": "string", "model": f}


C, UL, LIT, CH, AL = STR + " const&", "unsigned long", r"char const\*", "char", r"std::allocator<char> const&"
REF = STR + "&&"
EITHER = "(%s|%s)" % (C, REF)
ctor = SS + r"basic_string(<std::allocator<char>, void>|<std::allocator<char>>)?"
fresh(SS + r"basic_string\(\)", lambda F, m, a: mk(F, []))
fresh(SS + "basic_string" + A(EITHER), lambda F, m, a: at(F, m, a[1]))
fresh(ctor + A(LIT, AL), lambda F, m, a: cstr(F, m, a[1]))
fresh(ctor + A(UL, CH, AL), lambda F, m, a: F.G.lift(lambda n, c: F.G.mk("chv", *[N(c)] * F.G.is_const(n)), [a[1], a[2]]))
fresh(SS + "basic_string" + A(LIT, UL, AL), lambda F, m, a: cstr(F, m, a[1], a[2]))
fresh(SS + "basic_string" + A(C, UL, UL), lambda F, m, a: sub(F, at(F, m, a[1]), a[2], a[3]))
fresh(SS + "basic_string" + A(C, UL), lambda F, m, a: sub(F, at(F, m, a[1]), a[2], F.G.const(-1)))
fresh(SS + "substr" + A(UL, UL), lambda F, m, a: sub(F, at(F, m, a[1]), a[2], a[3]))
inplace("(operator=|assign)" + A(EITHER), lambda F, m, a: at(F, m, a[1]))
inplace("(operator=|assign)" + A(LIT), lambda F, m, a: cstr(F, m, a[1]))
inplace(r"(append|operator\+=)" + A(C), lambda F, m, a: cat(F, at(F, m, a[0]), at(F, m, a[1])))
inplace(r"(append|operator\+=)" + A(LIT), lambda F, m, a: cat(F, at(F, m, a[0]), cstr(F, m, a[1])))
inplace("append" + A(UL, CH), lambda F, m, a: F.G.lift(lambda s, n, c: F.G.mk(*F.G.keys[s], *[N(c)] * F.G.is_const(n)), [at(F, m, a[0]), a[1], a[2]]))
inplace(r"(operator\+=|push_back)" + A(CH), lambda F, m, a: F.G.lift(lambda s, c: F.G.mk(*F.G.keys[s], N(c)), [at(F, m, a[0]), a[1]]))
inplace("erase" + A(UL, UL), lambda F, m, a: cut(F, at(F, m, a[0]), a[1], a[2]))
inplace("clear" + A(), lambda F, m, a: mk(F, []))
inplace("pop_back" + A(), lambda F, m, a: F.G.lift(lambda s: F.G.mk(*F.G.keys[s][:-1]), [at(F, m, a[0])]))
IT = r"__gnu_cxx::__normal_iterator<char const\*, " + STR + ">"


def eraseit(F, m, a):
    w0 = F.ld(m, a[0], 8, "ptr")
    d = lambda x: F.G.padd(x, w0, -1)
    p, q = F.G.lift(lambda x, w: F.G.padd(x, w, -1), [a[1], w0]), F.G.lift(lambda x, y: F.G.padd(x, y, -1), [a[2], a[1]])
    return cut(F, at(F, m, a[0]), p, q)


M[SS + "erase" + A(IT)] = {"out": {0: W}, 0: W, "outargs": True, "as": "string", "model": lambda F, m, a: out(F, cut(F, at(F, m, a[0]), F.G.lift(lambda x, w: F.G.padd(x, w, -1), [a[1], F.ld(m, a[0], 8, "ptr")]), F.G.ONE)) + [a[1]]}
M[SS + "erase" + A(IT, IT)] = {"out": {0: W}, 0: W, "outargs": True, "as": "string", "model": lambda F, m, a: out(F, eraseit(F, m, a)) + [a[1]]}
for k in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
    value(k + A(CH, UL) + " const", lambda F, m, a, k=k: search(F, k, at(F, m, a[0]), mk(F, [a[1]]), a[2]))
    value(k + A(C, UL) + " const", lambda F, m, a, k=k: search(F, k, at(F, m, a[0]), at(F, m, a[1]), a[2]))
    value(k + A(LIT, UL) + " const", lambda F, m, a, k=k: search(F, k, at(F, m, a[0]), cstr(F, m, a[1]), a[2]))
    value(k + A(LIT, UL, UL) + " const", lambda F, m, a, k=k: search(F, k, at(F, m, a[0]), cstr(F, m, a[1], a[3]), a[2]))
value("compare" + A(C) + " const", lambda F, m, a: differ(F, at(F, m, a[0]), at(F, m, a[1])))
value("compare" + A(LIT) + " const", lambda F, m, a: differ(F, at(F, m, a[0]), cstr(F, m, a[1])))
value("compare" + A(UL, UL, C) + " const", lambda F, m, a: differ(F, sub(F, at(F, m, a[0]), a[1], a[2]), at(F, m, a[3])))
value("compare" + A(UL, UL, LIT) + " const", lambda F, m, a: differ(F, sub(F, at(F, m, a[0]), a[1], a[2]), cstr(F, m, a[3])))
EQ = r"^bool std::operator(==|!=)<char(, std::char_traits<char>, std::allocator<char>)?>"


def equal(F, m, a, b, neg):
    r = F.cmp("eq", differ(F, a, b), F.G.ZERO)
    return F.G.NOT(r) if neg else r


for op in ("==", "!="):
    h = r"^bool std::operator" + op + "<char(, std::char_traits<char>, std::allocator<char>)?>"
    M[h + A(C, C)] = {"as": "string", "model": lambda F, m, a, n=op == "!=": equal(F, m, at(F, m, a[0]), at(F, m, a[1]), n)}
    M[h + A(C, LIT)] = {"as": "string", "model": lambda F, m, a, n=op == "!=": equal(F, m, at(F, m, a[0]), cstr(F, m, a[1]), n)}
    M[h + A(LIT, C)] = {"as": "string", "model": lambda F, m, a, n=op == "!=": equal(F, m, cstr(F, m, a[0]), at(F, m, a[1]), n)}
PLUS = "^" + STR + r" std::operator\+<char, std::char_traits<char>, std::allocator<char>>"
fresh(PLUS + A(EITHER, EITHER), lambda F, m, a: cat(F, at(F, m, a[1]), at(F, m, a[2])))
fresh(PLUS + A(EITHER, LIT), lambda F, m, a: cat(F, at(F, m, a[1]), cstr(F, m, a[2])))
fresh(PLUS + A(LIT, EITHER), lambda F, m, a: cat(F, cstr(F, m, a[1]), at(F, m, a[2])))
fresh(PLUS + A(EITHER, CH), lambda F, m, a: cat(F, at(F, m, a[1]), mk(F, [a[2]])))
fresh(PLUS + A(CH, EITHER), lambda F, m, a: cat(F, mk(F, [a[1]]), at(F, m, a[2])))
NOOP = {"out": {0: []}, "outargs": True, "as": "~", "model": lambda F, m, a: []}
M[SS + r"~basic_string\(\)"] = NOOP
M[SS + r"reserve\("] = NOOP
M[r"^std::(__new_)?allocator<char>::~?(__new_)?allocator\("] = NOOP
for t, isl in (("std::vector", 0), (r"std::(__cxx11::)?list", 1)):
    # one vector of strings; entries are added by value
    h = "^(.* )?" + t + "<" + STR + ", std::allocator<" + STR + ">>::"
    M[h + r"(push_back|emplace_back)(<.*>)?" + A("(%s|%s|%s&)" % (C, REF, STR))] = {"out": {0: L3 if isl else V3}, 0: L3 if isl else V3, "outargs": True, "ret": 0, "as": "push", "model": lambda F, m, a, isl=isl: push(F, m, a[0], at(F, m, a[1]), isl)}
    M["^" + t + "<" + STR + ", std::allocator<" + STR + r">>::(~(vector|list)\(\)|reserve\()"] = NOOP
LIST = r"^std::(__cxx11::)?list<" + STR + ", std::allocator<" + STR + ">>::"
LBASE = r"^std::(__cxx11::)?_List_base<" + STR + ", std::allocator<" + STR + ">>::"
M[LIST + r"list\(\)"] = {"out": {0: L3}, "outargs": True, "as": "list", "model": lambda F, m, a: lout(F, F.G.mk("lst"), 1)}
M["(" + LIST + "list|" + LBASE + r"_List_base)\([^,]*<.*>&&\)"] = {"out": {0: L3, 1: L3}, 1: L3, "outargs": True, "as": "list", "model": lambda F, m, a: lout(F, entries(F, m, a[1], 1), 1) + lout(F, F.G.mk("lst"), 1)}
M[LBASE + r"(~_List_base\(|_M_clear\()"] = NOOP


def splice(F, m, a):
    """all of another list, at the end"""
    G = F.G
    if F.split(a[1])[0] != F.split(a[0])[0] and a[1] != a[0]:
        raise Blowup()
    v = G.lift(lambda x, y: G.mk(*G.keys[x], *G.keys[y][1:]), [entries(F, m, a[0], 1), entries(F, m, a[2], 1)])
    return lout(F, v, 1) + lout(F, G.mk("lst"), 1)


M[r"^std::(__cxx11::)?list<" + STR + ", std::allocator<" + STR + r">>::splice\(std::_List_const_iterator<[^,]*(<.*>)?>, .*&&?\)"] = {"out": {0: L3, 2: L3}, 0: L3, 2: L3, "outargs": True, "as": "splice", "model": splice}


# string streams: what was written, kept with the ostream part
OS = "std::(basic_)?ostream(<char, std::char_traits<char>>)?"
SSM = r"^std::(__cxx11::)?basic_stringstream<char, std::char_traits<char>, std::allocator<char>>::"
OSM = r"^std::(__cxx11::)?basic_ostringstream<char, std::char_traits<char>, std::allocator<char>>::"
P1 = lambda o: [(o, 8, "ptr")]


def written(F, m, p):
    def leaf(x):
        if F.G.keys[x][0] != "chv":
            raise Blowup()
        return x
    return F.G.lift(leaf, [F.ld(m, p, 8, "ptr")])


def printed(F, x):
    return F.G.lift(lambda y: F.G.mk("chv", N(F.G.mk("printed", N(y)))), [x])


def writes(rx, f):
    M[rx] = {"out": {0: P1(0)}, 0: P1(0), "outargs": True, "ret": 0, "as": "<<", "model": lambda F, m, a: [cat(F, written(F, m, a[0]), f(F, m, a[1]))]}


for pre, o in ((SSM, 16), (OSM, 0)):
    c = "basic_o?stringstream"
    M[pre + c + r"\((std::_Ios_Openmode)?\)"] = {"out": {0: P1(o)}, "outargs": True, "as": "stream", "model": lambda F, m, a: [mk(F, [])]}
    M[pre + c + A(C, "std::_Ios_Openmode")] = {"out": {0: P1(o)}, "outargs": True, "as": "stream", "model": lambda F, m, a: [at(F, m, a[1])]}
    M[pre + "~" + c + r"\(\)"] = NOOP
    fresh(pre + r"str\(\) const", lambda F, m, a, o=o: written(F, m, F.G.padd(a[1], F.G.const(o))))
writes("^" + OS + r"& std::operator<<\s?<char, std::char_traits<char>, std::allocator<char>>\(" + OS + "&, " + C + r"\)", lambda F, m, x: at(F, m, x))
writes("^" + OS + r"& std::operator<<\s?<std::char_traits<char>>\(" + OS + r"&, char const\*\)", lambda F, m, x: cstr(F, m, x))
writes("^" + OS + r"& std::operator<<\s?<std::char_traits<char>>\(" + OS + r"&, char\)", lambda F, m, x: mk(F, [x]))
writes("^" + OS + r"::operator<<\((unsigned )?(int|long|short)\)", lambda F, m, x: printed(F, x))
fresh(r"^std::(__cxx11::)?to_string\((unsigned )?(int|long)\)", lambda F, m, a: printed(F, a[1]))
