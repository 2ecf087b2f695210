"""std::string as a value: a string is the list of pieces it was put together from.

A string object holds four words.  A string nobody looked into is one unknown
piece made of its words; literals, single characters and printed numbers are
pieces; concatenation concatenates (and joins neighbouring literals)."""
from vg import N

T4 = [(o, 8, "i64") for o in (0, 8, 16, 24)]
STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
SS = "^" + STR + "::"
PLUS = "^" + STR + r" std::operator\+<char, std::char_traits<char>, std::allocator<char>>"


def parts(G, w):
    k = G.keys[w[0]]
    if k[0] == "strv":
        return [x.i for x in k[1:]]
    return [] if G.is_const(w[1]) == 0 else [G.mk("strc", *map(N, w))]


def lit(G, p):
    """the piece a const char* stands for"""
    k = G.keys[p]
    return [p] if k[0] == "str" else [G.mk("cstr", N(p))]


def char(G, c):
    v = G.is_const(c)
    return [G.mk("str", chr(v & 255))] if v is not None else [G.mk("strch", N(c))]


def make(G, ps):
    out = []
    for p in ps:
        k = G.keys[p]
        if k[0] == "str":
            if k[1] == "":
                continue
            if out and G.keys[out[-1]][0] == "str":
                out[-1] = G.mk("str", G.keys[out[-1]][1] + k[1])
                continue
        out.append(p)
    if len(out) == 1 and G.keys[out[0]][0] == "strc":
        return [x.i for x in G.keys[out[0]][1:]]
    v = G.mk("strv", *map(N, out))
    return [v] + [G.mk("strw", N(v), j) for j in (1, 2, 3)]


def f(*kinds):
    """fold: the concatenation of arguments of these kinds (s: string, l: literal, c: character)"""
    def fold(G, x):
        ps, i = [], 0
        for k in kinds:
            if k == "s":
                ps += parts(G, x[i:i + 4])
                i += 4
            else:
                ps += (lit if k == "l" else char)(G, x[i])
                i += 1
        return make(G, ps)
    return fold


def spec(fold, args, inplace=False, **kw):
    d = {i: T4 for i in args}
    d.update({"out": {0: T4}, "outargs": True, "fold": fold, "as": "string"})
    if inplace:
        d["ret"] = 0
    d.update(kw)
    return d


S, R, L, C = STR + " const&", STR + "&&", "char const*", "char"


def args(*a):
    import re
    return r"\(" + ", ".join(a) + r"\)"


A = "std::allocator<char> const&"
STRINGS = {}
for s in (S, R):
    STRINGS[SS + "basic_string" + args(s)] = spec(f("s"), [1])
    STRINGS[SS + "(operator=|assign|_M_assign)" + args(s)] = spec(f("s"), [1], True)
    STRINGS[PLUS + args(s, "char const\\*")] = spec(f("s", "l"), [1])
    STRINGS[PLUS + args(s, "char")] = spec(f("s", "c"), [1])
    STRINGS[PLUS + args("char const\\*", s)] = spec(f("l", "s"), [2])
    STRINGS[PLUS + args("char", s)] = spec(f("c", "s"), [2])
    for t in (S, R):
        STRINGS[PLUS + args(s, t)] = spec(f("s", "s"), [1, 2])
STRINGS[SS + r"basic_string\(\)"] = spec(f(), [])
STRINGS[SS + r"basic_string(<std::allocator<char>>)?" + args("char const\\*", A)] = dict(spec(lambda G, x: make(G, lit(G, x[0])), []))
STRINGS[SS + "(operator=|assign)" + args("char const\\*")] = spec(f("l"), [], True)
STRINGS[SS + r"(append|operator\+=|_M_append)" + args(S)] = spec(f("s", "s"), [0, 1], True)
STRINGS[SS + r"(append|operator\+=)" + args("char const\\*")] = spec(f("s", "l"), [0], True)
STRINGS[SS + r"operator\+=" + args("char")] = spec(f("s", "c"), [0], True)
STRINGS[SS + "push_back" + args("char")] = spec(f("s", "c"), [0])
STRINGS[SS + r"~basic_string\(\)"] = {"out": {0: []}, "outargs": True, "as": "~string"}
STRINGS[r"^std::__cxx11::to_string\("] = spec(lambda G, x: make(G, [G.mk("strnum", N(x[0]))]), [])
STRINGS[r"^std::(__new_)?allocator<char>::~?(__new_)?allocator\("] = {"out": {0: []}, "outargs": True, "as": "allocator"}
