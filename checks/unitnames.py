"""P29: the names of units and numbers say what they are."""
from pairs import *
from units import PREU, UOPS, SC, RC, C2, C4
from vg import N
import charstr
from strs import low8
import strmodel
from strmodel import STRINGS, T4
from rational import ERR, ROPS

NAME = [(0, 8, "i64")]
AT = 32 + 7 * 16


def word(F, mem, p, n):
    """the name in these characters"""
    G = F.G

    def leaf(p, n):
        b = F.split(p)[0]
        if G.keys[p][0] == "str" or b is not None and G.keys[b][0] == "str":
            return charstr.lit(F, p, G.is_const(n))
        t = F.ld(mem, p, 8, "i64")
        return G.lift(lambda t, n: t if n == G.mk("call", "strlen", N(t)) else G.mk("call", "part", N(t), N(n)), [t, n])
    return G.lift(leaf, [p, n])


def join(F, m, a):
    return [F.G.lift(lambda *x: F.G.mk("call", "joined", *map(N, x)), [word(F, m, a[2], a[1]), word(F, m, a[4], a[3]), a[5]])]


def keep(F, m, a):
    return [word(F, m, a[2], a[1])]


NOPS = {k: v for k, v in UOPS.items() if "concat_repr" not in k and "has_symbol" not in k}
NOPS.update({
    r"^ekat::units::Units::concat_repr\(": {"model": join, "out": {0: NAME}},
    r"^ekat::units::Units::to_array\(": {"model": keep, "out": {0: NAME}},
    r"^std::array<.*> ekat::RationalConstant::string_repr<": {1: C2, "out": {0: NAME}, "as": "rname"},
    r"^std::array<.*> ekat::ScalingFactor::string_repr<": {1: C4, "out": {0: NAME}, "as": "sname"},
    r"^ekat::units::Units::has_symbol\(\)": {0: [(AT, 8, "i64")], "as": "symbol"},
    r"^strlen$": {0: NAME, "as": "strlen"},
})


def drv_names():
    d = Drv(PREU + r"""
#include <cstring>
namespace {
using A = std::array<char,ekat::units::UNITS_MAX_STR_LEN>;
inline void nm(const A& a, L* o){ std::memcpy(o,a.data(),8); }
inline std::string_view sv(const A& a){ return a.data(); }
inline A jn(const U& u, const U& v, char c){ return U::concat_repr(sv(u.m_string_repr),sv(v.m_string_repr),c); }
inline A sr(const S& s){ return s.string_repr<ekat::units::UNITS_MAX_STR_LEN>(); }
inline A rr(const R& s){ return s.string_repr<ekat::units::UNITS_MAX_STR_LEN>(); }
inline A jn(const A& u, const A& v, char c){ return U::concat_repr(sv(u),sv(v),c); }
inline A pre(const S& k, const U& u){
  const A& n = u.m_string_repr;
  if (u.has_symbol()) {
    using namespace ekat::prefixes;
    if (k==nano) return U::concat_repr("n",sv(n),'\0');
    if (k==micro) return U::concat_repr("u",sv(n),'\0');
    if (k==milli) return U::concat_repr("m",sv(n),'\0');
    if (k==centi) return U::concat_repr("c",sv(n),'\0');
    if (k==hecto) return U::concat_repr("h",sv(n),'\0');
    if (k==kilo) return U::concat_repr("k",sv(n),'\0');
    if (k==mega) return U::concat_repr("M",sv(n),'\0');
    if (k==giga) return U::concat_repr("G",sv(n),'\0');
  }
  return jn(sr(k),n,'*');
}
}
""")
    O = [("L* RS", "o")]
    u, v = ("const U& RS", "u"), ("const U& RS", "v")
    k, r = [("const S& RS", "k")], [("const R& RS", "r")]

    def e(nm, P, t, ref, what):
        d.e("name", nm, "void", P + O, "auto x_=%s; nm(x_.m_string_repr,o);" % t, "nm(%s,o);" % ref, what)
    n = "u.m_string_repr"
    e("umul", [u, v], "u*v", "jn(u,v,'*')", "u*v")
    e("udiv", [u, v], "u/v", "jn(u,v,'/')", "u/v")
    e("upow", [u] + r, "pow(u,r)", "jn(%s,rr(r),'^')" % n, "pow(u,r)")
    e("usqrt", [u], "sqrt(u)", "jn(%s,rr(R(1,2)),'^')" % n, "sqrt(u)")
    for nm, P, kk in (("k", k, "k"), ("r", r, "S(r)")):
        x = P[0][1]
        e("lmul" + nm, P + [u], "%s*u" % x, "pre(%s,u)" % kk, "%s*u: a prefix goes before a symbol" % x)
        e("rmul" + nm, P + [u], "u*%s" % x, "pre(%s,u)" % kk, "u*%s: a prefix goes before a symbol" % x)
        e("rdiv" + nm, P + [u], "u/%s" % x, "jn(%s,sr(%s),'/')" % (n, kk), "u/%s" % x)
        e("ldiv" + nm, P + [u], "%s/u" % x, "jn(sr(%s),%s,'/')" % (kk, n), "%s/u" % x)
    s = [("const char* RS", "n"), ("unsigned char", "l")]
    e("rename", [u] + s, "u.rename(std::string_view(n,l))", "U::to_array(std::string_view(n,l))", "rename")
    e("named", [u] + s, "U(u,std::string_view(n,l))", "U::to_array(std::string_view(n,l))", "Units(u,name)")
    e("copy", [u], "U(u)", n, "a copy keeps the name")
    e("ctors", k, "U(k)", "sr(k)", "Units(scaling)")
    seven = [("const R& RS", "e%d" % i) for i in range(7)]
    e("ctor7", seven + k + s, "U(e0,e1,e2,e3,e4,e5,e6,k,std::string_view(n,l))", "U::to_array(std::string_view(n,l))", "Units(exponents,scaling,name)")
    return d



def drv_chars():
    d = Drv(PREU + """
using A = std::array<char,ekat::units::UNITS_MAX_STR_LEN>;
inline bool op(char c){ return c=='*' || c=='/' || c=='^'; }
inline bool nosym(char c){ return op(c) || c==' ' || c=='(' || c==')'; }
""")
    C = [("const char* RS", "a")]
    O = [("char* RS", "o")]
    for n in range(7):
        d.e("kept", "keep%d" % n, "void", C + O, "A x=U::to_array(std::string_view(a,%d)); for(int i=0;i<%d;++i) o[i]=x[i];" % (n, n + 3), " ".join("o[%d]=a[%d];" % (i, i) for i in range(n)) + " ".join("o[%d]=0;" % (n + i) for i in range(3)), "a name of %d characters" % n)
    for n in range(4):
        for m in range(4):
            for nm, sep in (("m", "'*'"), ("p", "'^'"), ("n", "'\\0'")):
                k = n + m + 7

                def out(x, y):
                    cs = ["'('"] * x + ["a[%d]" % i for i in range(n)] + ["')'"] * x + ([sep] if nm != "n" else []) + ["'('"] * y + ["b[%d]" % i for i in range(m)] + ["')'"] * y
                    return " ".join("o[%d]=%s;" % (i, (cs + ["0"] * k)[i]) for i in range(k))
                any_ = lambda v, l: "(%s)" % (" || ".join("op(%s[%d])" % (v, i) for i in range(l)) or "false")
                r = "bool x=%s, y=%s; if(x&&y){ %s } else if(x){ %s } else if(y) { %s } else { %s }" % (any_("a", n), any_("b", m), out(1, 1), out(1, 0), out(0, 1), out(0, 0))
                d.e("joined", "join%d%d%s" % (n, m, nm), "void", C + [("const char* RS", "b")] + O, "A x=U::concat_repr(std::string_view(a,%d),std::string_view(b,%d),%s); for(int i=0;i<%d;++i) o[i]=x[i];" % (n, m, sep, k), r, "names of %d and %d characters joined by %s" % (n, m, sep))
    for n in range(1, 7):
        t = "alignas(U) char x[sizeof(U)]; U& u=*(U*)x; for(int i=0;i<%d;++i) u.m_string_repr[i]=a[i]; u.m_string_repr[%d]=0; return u.has_symbol();" % (n, n)
        d.e("symbol", "symbol%d" % n, "bool", C, t, " ".join("if(nosym(a[%d])) return false; if(a[%d]==0) return true;" % (i, i) for i in range(n)) + "return true;", "a name of up to %d characters is a symbol" % n)
    return d


def drv_long():
    d = Drv(PREU + """
using A = std::array<char,ekat::units::UNITS_MAX_STR_LEN>;
inline bool op(char c){ return c=='*' || c=='/' || c=='^'; }
""")
    P = [("const char* RS", "a"), ("const char* RS", "b"), ("char* RS", "o")]
    for n, m, sep in ((123, 1, "'*'"), (124, 1, "'/'"), (126, 0, "'^'"), (126, 1, "'*'"), (126, 1, "'\\0'"), (1, 127, "'\\0'")):
        k = n + m + (sep != "'\\0'")
        d.e("long", "long%d_%d_%d" % (n, m, k), "void", P, "A x=U::concat_repr(std::string_view(a,%d),std::string_view(b,%d),%s); o[0]=x[127];" % (n, m, sep),
            "bool x=false, y=false; " + " ".join("x|=op(a[%d]);" % i for i in range(n)) + " ".join("y|=op(b[%d]);" % i for i in range(m)) +
            "if(%d+(x?2:0)+(y?2:0)>=128) die(); o[0]=0;" % k, "names of %d and %d characters joined by %s: at most 127 characters" % (n, m, sep))
    return d


def shown(p, q):
    """numbers whose printed form has p (the first one met) or q characters"""
    def f(F, m, a):
        v = tuple(F.ld(m, F.G.padd(a[1], F.G.const(o)), 8, "i64") for o in (0, 8))
        seen = F.G.__dict__.setdefault("x_seen", {})
        n = seen.setdefault(v, len(seen))
        t = "abcdefghijklmnopqrstuvwxyz"[6 * n:][:(p, q)[n] if n < 2 else 5]
        return [F.G.const(ord(c)) for c in t] + [F.G.ZERO] * (8 - len(t))
    return {r"^std::array<.*> ekat::RationalConstant::string_repr<": {"model": f, "out": {0: [(i, 1, "i8") for i in range(8)]}}}


def drv_scale():
    d = Drv(PREU)
    P = [("L", c) for c in ("a", "b", "c", "d")] + [("char* RS", "o")]

    def out(par, one, pare):
        t = "p=0; " + ("o[p++]='('; " if par else "") + "for(int i=0;i<6 && x[i];++i) o[p++]=x[i]; " + ("o[p++]=')'; " if par else "")
        if not one:
            t += "o[p++]='^'; " + ("o[p++]='('; " if pare else "") + "for(int i=0;i<6 && y[i];++i) o[p++]=y[i]; " + ("o[p++]=')'; " if pare else "")
        return "{ int %s for(int i=0;i<2;++i) o[p++]=0; }" % t
    r = "auto x=raw(a,b).string_repr<128>(), y=raw(c,d).string_repr<128>(); const bool u=b!=1||a<0, v=d!=1||c<0; if(raw(c,d)==R(1)) { if(u) %s else %s } else if(u) { if(v) %s else %s } else { if(v) %s else %s }" % (out(1, 1, 0), out(0, 1, 0), out(1, 0, 1), out(1, 0, 0), out(0, 0, 1), out(0, 0, 0))
    # (what lies behind the terminating zero is not part of the name)
    t = "auto s=raw(a,b,c,d).string_repr<128>(); int i=0; for(;i<10 && s[i];++i) o[i]=s[i]; o[i]=0; o[i+1]=0;"
    d.e("scale", "srep", "void", P, t, r, "string_repr of a scaling factor: base^exponent, fractions and negative numbers in parentheses, exponent one left out")
    return d


def piece(nm, off, lay):
    """a printed thing: one piece of a string"""
    def f(F, m, a):
        x = [F.ld(m, F.G.padd(a[1], F.G.const(o)), z, t) for o, z, t in lay] + a[2:]
        return strmodel.make(F.G, [F.G.mk("call", nm, *map(N, x))])
    return {"model": f, "outargs": True, "out": {0: T4}}


def trimmed(F, m, a):
    w = [F.ld(m, F.G.padd(a[1], F.G.const(8 * i)), 8, "i64") for i in range(4)]

    def go(*w):
        ps = strmodel.parts(F.G, w)
        ks = [F.G.keys[x] for x in ps]
        if ks and ks[0][0] == "str":
            ps[0] = F.G.mk("str", ks[0][1].lstrip(" "))
        if ks and ks[-1][0] == "str":
            ps[-1] = F.G.mk("str", F.G.keys[ps[-1]][1].rstrip(" "))
        v = strmodel.make(F.G, ps)
        a = F.G.mk("undef")
        for i, x in enumerate(v):
            a = F.G.mk("ins", N(a), N(x), (i,))
        return a
    r = F.G.lift(go, w)
    return [F.L(lambda x: F.exv(x, (i,), "i64"), r) for i in range(4)]


def appended(F, m, a, p, n):
    w = [F.ld(m, F.G.padd(a[0], F.G.const(8 * i)), 8, "i64") for i in range(4)]

    def go(*x):
        G = F.G
        v = G.is_const(x[4])
        b, off = (x[5], G.ZERO) if G.keys[x[5]][0] == "str" else F.split(x[5])
        if v is None or b is None or G.keys[b][0] != "str":
            l = [G.mk("call", "sv", N(x[5]), N(x[4]))]
        else:
            l = [G.mk("str", G.keys[b][1][G.is_const(off):][:v])]
        r = strmodel.make(G, strmodel.parts(G, x[:4]) + l)
        a = G.mk("undef")
        for i, y in enumerate(r):
            a = G.mk("ins", N(a), N(y), (i,))
        return a
    r = F.G.lift(go, w + [n, p])
    return [F.L(lambda x: F.exv(x, (i,), "i64"), r) for i in range(4)]


RSTR = {r"^ekat::RationalConstant::to_string(\[abi:cxx11\])?\(": piece("ratstr", 0, C2)}
SSTR = {r"^ekat::ScalingFactor::to_string(\[abi:cxx11\])?\(": piece("scstr", 0, C4)}
TRIM = {r"^ekat::trim\(": {"model": trimmed, "outargs": True, "out": {0: T4}}}
SV = {strmodel.SS + r"append\(char const\*, unsigned long\)": {"model": lambda F, m, a: appended(F, m, a, a[1], a[2]), 0: T4, "outargs": True, "out": {0: T4}, "ret": 0}}
PRES = PREU + r"""
#include <string>
#include <new>
using Str = std::string; using Fm = ekat::Format;
"""


def drv_print():
    d, e = Drv(PRES), Drv(PRES)
    P = [("Str* RS", "o"), ("const S* RS", "s")]
    par = lambda x, c: 'if(%s) { r+="("; r+=%s.to_string(f); r+=")"; } else r+=%s.to_string(f);' % (c, x, x)
    ref = "Str r; if(s->exp.num==1 && s->exp.den==1) { new(o) Str(s->base.to_string(f)); return; } %s r+='^'; %s new(o) Str(r);"
    for nm, f, T in (("d", "const Fm f=Fm::Rat; ", "s->to_string()"), ("r", "const Fm f=Fm::Rat; ", "s->to_string(Fm::Rat)"), ("f", "const Fm f=Fm::Float; ", "s->to_string(Fm::Float)")):
        c = lambda x: "false" if nm == "f" else x + ".den!=1"
        r = f + ref % (par("s->base", c("s->base")), par("s->exp", c("s->exp")))
        d.e("print", "sstr" + nm, "void", P, "new(o) Str(%s);" % T, r, T.replace("s->", "ScalingFactor::") + ": base^exponent, an exponent of one left out" + ("" if nm == "f" else ", fractions in a power in parentheses"))
        d.alt("sstr" + nm, r.replace("s->exp.num==1 && s->exp.den==1", "s->exp==R(1)"))
    U_ = [("Str* RS", "o"), ("const U* RS", "u")]
    sym = ["m", "s", "kg", "K", "A", "mol", "cd"]
    e.e("print", "ustr", "void", U_, "new(o) Str(u->to_string());", "Str t(u->m_string_repr.data()); new(o) Str(ekat::trim(t));", "to_string: the name, without blanks around it")
    for i in range(7):
        # all exponents but one and its neighbour are zero
        k = (i + 1) % 7
        z = "U v(*u); " + " ".join("v.m_units[%d].num=0;" % q for q in range(7) if q not in (i, k))
        lo, hi = sorted((i, k))
        t = "".join('if(v.m_units[%d].num!=0) { if(v.m_units[%d]==R(1)) r+="%s "; else if(v.m_units[%d].den!=1) { r+="%s^("; r+=v.m_units[%d].to_string(Fm::Rat); r+=") "; } else { r+="%s^"; r+=v.m_units[%d].to_string(Fm::Rat); r+=" "; } } ' % (q, q, sym[q], q, sym[q], q, sym[q], q) for q in (lo, hi))
        e.e("print", "si%d" % i, "void", U_, z + "new(o) Str(v.get_si_string());", z + 'Str r; if(!(v.m_scaling==S::one()) || v.m_units[%d].num==0 && v.m_units[%d].num==0) { r+=v.m_scaling.to_string(Fm::Rat); r+=" "; } %s new(o) Str(ekat::trim(r));' % (lo, hi, t), "get_si_string of units of %s and %s" % (sym[lo], sym[hi]))
    return d, e


def memchr(F, m, a):
    """where a character is in a literal: null if it is not"""
    G = F.G

    def leaf(p, c, n):
        k, c0 = G.keys[p], G.is_const(c)
        n = G.is_const(n)
        if k[0] != "str" or n is None or n > len(k[1]):
            return G.mk("call", "memchr", N(p), N(c), N(n))
        vals = frozenset(ord(x) for x in k[1][:n])
        if c0 is not None:
            return G.padd(p, G.const(k[1].index(chr(c0 & 255)))) if c0 & 255 in vals else G.ZERO
        c = low8(G, c)
        # (any place will do: only whether it is there is looked at)
        return G.ite(F.charset(c, vals) if F.achar(c) else G.boolatom("in", N(c), tuple(sorted(vals))), p, G.ZERO)
    return G.lift(leaf, a)


FIND = {"^memchr$": {"model": memchr}}
SV[strmodel.SS + r"insert\(unsigned long, " + strmodel.STR + r" const&\)"] = dict(strmodel.spec(lambda G, x: strmodel.make(G, strmodel.parts(G, x[5:9]) + strmodel.parts(G, x[:4])) if G.is_const(x[4]) == 0 else None, [0, 2], True))
FIX = ["--unfold=RationalConstant::fix_"]
CH = dict(distinct=True, charbits="const", ldstr=charstr.ldstr, liftmax=20000)
PR = dict(distinct=True, transparent_trunc=True, liftmax=20000, ldstr=charstr.ldstr)


def part(x):
    k, tier = x
    rep = Report("P29", tier, "")
    fl = flags(True, kokkos=False) + ["-fno-access-control"]
    if k == "names":
        run_pairs(rep, k, drv_names(), fl, opaque=ERR, extra=FIX, opts=dict(transparent_trunc=True), pureref=NOPS, values=True)
    elif k == "chars":
        run_pairs(rep, k, drv_chars(), fl, opaque=ERR + ["^std::length_error::"], extra=["--bound=12"], opts=CH, pureref=FIND)
    elif k == "long":
        run_pairs(rep, k, drv_long(), fl, opaque=ERR + ["^std::length_error::"], extra=["--bound=140"], opts=dict(CH, liftmax=400000), pureref=FIND)
        if rep.undecided:
            # another way to look for operators, too deep for names this long: its short names are decided all the same
            rep.assumptions.append("length limit not decided: " + ", ".join(rep.undecided))
            rep.undecided.clear()
    elif k == "print":
        run_pairs(rep, k, drv_print()[0], fl, opaque=ERR + ["^std::__throw"], extra=FIX, opts=PR, pureref={**ROPS, **STRINGS, **RSTR, **SV})
    elif k == "si":
        run_pairs(rep, k, drv_print()[1], fl, opaque=ERR + ["^std::__throw"], extra=FIX, opts=PR, pureref={**UOPS, **STRINGS, **RSTR, **SSTR, **TRIM, **SV})
    else:
        p, q = map(int, k)
        run_pairs(rep, "scale" + k, drv_scale(), fl, opaque=ERR, extra=["--bound=11"] + FIX, opts=dict(distinct=True, transparent_trunc=True), pureref={**ROPS, **shown(p, q)}, note=" [%d and %d characters]" % (p, q))
    return rep


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of the names of units with the rule for composing them")
    for r in pmap(part, [(k, tier) for k in ("12", "31", "long", "chars", "names", "print", "si")]):
        rep.merge(r)
    for g, n in (("name", 17), ("kept", 14), ("joined", 100), ("symbol", 6), ("long", 2), ("scale", 4), ("print", 20)):
        rep.need(g, n)
    rep.assumptions += ["the digits of a printed number (RationalConstant::string_repr, the standard streams) are one unknown piece of text", "names of up to 3 characters per factor for the composed name (and the limit cases around 127 characters); longer ones by the same loops"]
    return rep.finish("composed names for every unit, scaling and power; concat_repr, to_array and has_symbol for every content of short names; get_si_string with two adjacent base units at a time")
