"""P14: scaling factors and units combine like the quantities they stand for."""
from pairs import *
from rational import INC, ERR, ROPS, RC, C2, C4

PRE = INC + r'''
#include "ekat_scaling_factor.hpp"
using R = ekat::RationalConstant;
using S = ekat::ScalingFactor;
namespace {
inline R raw(L n, L d){ R r(0); r.num=n; r.den=d; return r; }
inline S raw(L a, L b, L c, L d){ S s(1); s.base=raw(a,b); s.exp=raw(c,d); return s; }
inline void put(const S& s, L* o){ o[0]=s.base.num; o[1]=s.base.den; o[2]=s.exp.num; o[3]=s.exp.den; }
// b^e as a scaling factor: 0^0 and even roots of negative numbers are rejected, x^0 is 1, (-b)^even is b^even
inline void mk(const R& b, const R& e, L* o) {
  if (b.num==0 && e.num==0) die();
  if (b.num<0 && e.den%2==0) die();
  R m = -b;
  bool pos = b.num<0 && e.num%2==0;
  o[0] = e.num==0 ? 1 : pos ? m.num : b.num;
  o[1] = e.num==0 ? 1 : pos ? m.den : b.den;
  o[2] = e.num==0 ? 1 : e.num;
  o[3] = e.num==0 ? 1 : e.den;
}
}
'''

def drv_sf():
    d = Drv(PRE)
    O = [("L* RS", "o")]
    A = [("L", v) for v in ("a", "b", "c", "d")]
    B = [("L", v) for v in ("w", "x", "y", "z")]
    b1, e1 = "R b1=raw(a,b); ", "R e1=raw(c,d); "
    X = "S X=raw(a,b,c,d); "
    Y = "S Y=raw(w,x,y,z); "
    XR = b1 + e1
    YR = "R b2=raw(w,x), e2=raw(y,z); "

    def e(g, nm, P, t, r, what, alts=()):
        d.e(g, nm, "void", P + O, t, r, what)
        for x in alts:
            d.alt(nm, x)
    e("construction", "ctor", A, XR + "put(S(b1,e1),o);", XR + "mk(b1,e1,o);", "ScalingFactor(b,e): 0^0 and even roots of negatives rejected, b^0=1, sign of an even power dropped")
    e("construction", "ctor1", A[:2], b1 + "put(S(b1),o);", b1 + "mk(b1,R(1),o);", "ScalingFactor(b)")
    for n, v in (("one", 1), ("zero", 0)):
        e("construction", n, [], "put(S::%s(),o);" % n, "o[0]=%d;o[1]=1;o[2]=1;o[3]=1;" % v, "ScalingFactor::%s()" % n)
    e("construction", "copy", A + B, X + Y + "S Z(X); Y=Z; put(Y,o);", "o[0]=a;o[1]=b;o[2]=c;o[3]=d;", "copies are exact")
    same_b = "(a*x==b*w)"
    same_e = "(c*z==d*y)"
    same_b2 = "(a==w&&b==x)"
    same_e2 = "(c==y&&d==z)"
    odd = "if((a<0||w<0) && (d*z)%2==0) die(); "
    for nm, op, eop in (("mul", "*", "+"), ("div", "/", "-")):
        for t, tb in (("", "put(X%sY,o);" % op), ("eq", "X%s=Y; put(X,o);" % op)):
            if t == "eq" and op == "/":
                continue
            def body(sb, se):
                return (XR + YR + "if(%s){ mk(b1,e1%se2,o); return; } if(%s){ mk(b1%sb2,e1,o); return; } " % (sb, eop, se, op) + odd +
                        "mk(pow(b1,c*z)%spow(b2,y*d), R(1LL,d*z), o);" % op)
            e("product", nm + t, A + B, X + Y + tb, body(same_b, same_e), "X%s%sY: same bases combine exponents, same exponents combine bases, otherwise both are raised to a common root; products whose sign would be lost are rejected" % (op, "=" if t else ""),
              [body(same_b2, same_e2)])
        for t, tb, fix in (("_r", "R k=raw(w,x); put(X%sk,o);" % op, 0), ("_l", "R k=raw(w,x); put(k%sX,o);" % op, 1)):
            g = ["put(X%sS(k),o);" % op, "put(S(k)%sX,o);" % op] if not fix else ["put(S(k)%sX,o);" % op, "put(X%sS(k),o);" % op]
            e("product", nm + t, A + B[:2], X + tb, X + "R k=raw(w,x); " + g[0], "%s with a rational operand" % ("X%sk" % op if not fix else "k%sX" % op), [X + "R k=raw(w,x); " + g[1]] if op == "*" else [])
    d.e("equality", "eq", "bool", A + B, X + Y + "return X==Y;", XR + YR + "return (a<0)==(w<0) && pow(b1,c*z)==pow(b2,y*d);", "X==Y: same sign and same value once both are raised to the common denominator of the exponents")
    d.e("equality", "ne", "bool", A + B, X + Y + "return X!=Y;", X + Y + "return !(X==Y);", "X!=Y")
    d.e("equality", "eqr", "bool", A + B[:2], X + "return X==raw(w,x);", X + "return X==S(raw(w,x));", "X==k")
    d.e("equality", "eql", "bool", A + B[:2], X + "return raw(w,x)==X;", X + "return S(raw(w,x))==X;", "k==X")
    d.e("equality", "ner", "bool", A + B[:2], X + "return X!=raw(w,x);", X + "return !(X==S(raw(w,x)));", "X!=k")
    d.e("equality", "nel", "bool", A + B[:2], X + "return raw(w,x)!=X;", X + "return !(S(raw(w,x))==X);", "k!=X")
    for T, t in (("int", "i"),):
        e("power", "powi", A + [(T, "p")], X + "put(pow(X,p),o);", XR + "mk(b1,e1*R(p),o);", "pow(X,int)")
    e("power", "powr", A + B[:2], X + "put(pow(X,raw(w,x)),o);", XR + "mk(b1,e1*raw(w,x),o);", "pow(X,rational)")
    e("power", "sqrt", A, X + "put(sqrt(X),o);", XR + "mk(b1,e1/R(2),o);", "sqrt(X)", [XR + "mk(b1,e1*R(1,2),o);"])
    return d


PREU = PRE + r"""
#include "ekat_units.hpp"
using U = ekat::units::Units;
static_assert(sizeof(U)==32+7*16+ekat::units::UNITS_MAX_STR_LEN, "TYPEWIT umul: a scaling factor, seven exponents and a name");
namespace {
inline void exps(const U& u, L* o){ for(int i=0;i<7;++i){ o[2*i]=u.m_units[i].num; o[2*i+1]=u.m_units[i].den; } }
inline void pute(const R& r, L* o){ o[0]=r.num; o[1]=r.den; }
inline void puts_(const S& s, L* o){ put(s,o); }
inline void put(const U& u, L* o){ puts_(u.m_scaling,o); exps(u,o+4); }
constexpr bool named(const U& u, std::string_view s){ return std::string_view(u.m_string_repr.data())==s; }
constexpr bool dims(const U& u, R a, R b, R c, R d, R e, R f, R g){
  return u.m_units[0]==a && u.m_units[1]==b && u.m_units[2]==c && u.m_units[3]==d && u.m_units[4]==e && u.m_units[5]==f && u.m_units[6]==g; }
constexpr bool scaled(const U& u, R a){ return u.m_scaling.base==a && u.m_scaling.exp==R(1) || u.m_scaling==S(a); }
}
"""
#        name: symbol, exponents (m s kg K A mol cd), scaling
TABLE = {
    "m": ("m", "1,0,0,0,0,0,0", "1"), "s": ("s", "0,1,0,0,0,0,0", "1"), "kg": ("kg", "0,0,1,0,0,0,0", "1"), "K": ("K", "0,0,0,1,0,0,0", "1"),
    "A": ("A", "0,0,0,0,1,0,0", "1"), "mol": ("mol", "0,0,0,0,0,1,0", "1"), "cd": ("cd", "0,0,0,0,0,0,1", "1"), "none": ("1", "0,0,0,0,0,0,0", "1"),
    "h": ("h", "0,1,0,0,0,0,0", "3600"), "day": ("day", "0,1,0,0,0,0,0", "86400"), "year": ("yr", "0,1,0,0,0,0,0", "31536000"), "g": ("g", "0,0,1,0,0,0,0", "R(1,1000)"),
    "N": ("N", "1,-2,1,0,0,0,0", "1"), "Pa": ("Pa", "-1,-2,1,0,0,0,0", "1"), "bar": ("bar", "-1,-2,1,0,0,0,0", "100000"), "atm": ("atm", "-1,-2,1,0,0,0,0", "101325"),
    "J": ("J", "2,-2,1,0,0,0,0", "1"), "W": ("W", "2,-3,1,0,0,0,0", "1"), "C": ("C", "0,1,0,0,1,0,0", "1"), "V": ("V", "2,-3,1,0,-1,0,0", "1"),
    "T": ("T", "0,-2,1,0,-1,0,0", "1"), "F": ("F", "-2,4,-1,0,2,0,0", "1"), "Wb": ("Wb", "2,-2,1,0,-1,0,0", "1"), "H": ("H", "2,-2,1,0,-2,0,0", "1"),
    "Sv": ("Sv", "2,-2,0,0,0,0,0", "1"), "Hz": ("Hz", "0,-1,0,0,0,0,0", "1"), "rad": ("rad", "0,0,0,0,0,0,0", "1"), "sr": ("sr", "0,0,0,0,0,0,0", "1"),
    "dyn": ("dyn", "1,-2,1,0,0,0,0", "R(1,100000)"), "rem": ("rem", "2,-2,0,0,0,0,0", "R(1,100)"),
}
PREFIX = {"nano": -9, "micro": -6, "milli": -3, "centi": -2, "hecto": 2, "kilo": 3, "mega": 6, "giga": 9}
SC = r"ekat::ScalingFactor const&"


def smul(G, x):
    one = [G.ONE] * 4
    for a, b in ((x[:4], x[4:8]), (x[4:8], x[:4])):
        if a == one:
            return b


UOPS = dict(ROPS)
UOPS.update({
    r"^ekat::operator\*\(%s, %s\)" % (SC, SC): {1: C4, 2: C4, "out": {0: C4}, "as": "smul", "commut": 4, "fold": smul},
    r"^ekat::operator/\(%s, %s\)" % (SC, SC): {1: C4, 2: C4, "out": {0: C4}, "as": "sdivide"},
    r"^ekat::pow\(%s, %s\)" % (SC, RC): {1: C4, 2: C2, "out": {0: C4}, "as": "spow"},
    r"^ekat::operator==\(%s, %s\)" % (SC, SC): {0: C4, 1: C4, "as": "seq", "commut": 4},
    # names take no part in the arithmetic
    r"^ekat::units::Units::has_symbol\(\)": {"as": "has_symbol"},
    r"ekat::units::Units::(concat_repr|to_array)\(|::string_repr<": {"out": {0: []}, "as": "name"},
})


def drv_units():
    d = Drv(PREU)
    O = [("L* RS", "o")]
    u, v = ("const U& RS", "u"), ("const U& RS", "v")
    k, r = [("const S& RS", "k")], [("const R& RS", "r")]

    def e(g, nm, P, t, sc, ex, what):
        d.e(g, nm, "void", P + O, "put(%s,o);" % t, "puts_(%s,o); for(int i=0;i<7;++i) pute(%s,o+4+2*i);" % (sc, ex), what)
    e("product", "umul", [u, v], "u*v", "u.m_scaling*v.m_scaling", "u.m_units[i]+v.m_units[i]", "u*v: scalings multiply, exponents add")
    e("product", "udiv", [u, v], "u/v", "u.m_scaling/v.m_scaling", "u.m_units[i]-v.m_units[i]", "u/v: scalings divide, exponents subtract")
    for nm, P, kk in (("k", k, "k"), ("r", r, "S(r)")):
        x = P[0][1]
        e("scaling", "lmul" + nm, P + [u], "%s*u" % x, "%s*u.m_scaling" % kk, "u.m_units[i]", "%s*u: only the scaling changes" % x)
        e("scaling", "rmul" + nm, P + [u], "u*%s" % x, "%s*u.m_scaling" % kk, "u.m_units[i]", "u*%s: only the scaling changes" % x)
        e("scaling", "rdiv" + nm, P + [u], "u/%s" % x, "u.m_scaling/%s" % kk, "u.m_units[i]", "u/%s: only the scaling changes" % x)
        e("scaling", "ldiv" + nm, P + [u], "%s/u" % x, "%s/u.m_scaling" % kk, "R(0)-u.m_units[i]", "%s/u: exponents change sign" % x)
        d.alt("ldiv" + nm, "puts_(%s/u.m_scaling,o); for(int i=0;i<7;++i) pute(-u.m_units[i],o+4+2*i);" % kk)
    e("power", "upow", [u] + r, "pow(u,r)", "pow(u.m_scaling,r)", "u.m_units[i]*r", "pow(u,r): everything is raised to r")
    e("power", "usqrt", [u], "sqrt(u)", "pow(u.m_scaling,R(1,2))", "u.m_units[i]*R(1,2)", "sqrt(u)")
    sv = [("const char* RS", "n"), ("unsigned char", "l")]
    e("naming", "rename", [u] + sv, "u.rename(std::string_view(n,l))", "u.m_scaling", "u.m_units[i]", "rename changes only the name")
    e("naming", "named", [u] + sv, "U(u,std::string_view(n,l))", "u.m_scaling", "u.m_units[i]", "Units(u,name) changes only the name")
    e("construction", "ctors", k, "U(k)", "k", "R(0)", "Units(scaling) is dimensionless")
    seven = [("const R& RS", "e%d" % i) for i in range(7)]
    d.e("construction", "ctor7", "void", seven + k + sv + O, "put(U(e0,e1,e2,e3,e4,e5,e6,k,std::string_view(n,l)),o);", "puts_(k,o); " + " ".join("pute(e%d,o+%d);" % (i, 4 + 2 * i) for i in range(7)), "Units(length,time,mass,temperature,current,amount,luminous intensity,scaling)")
    d.e("construction", "ctor7d", "void", seven + O, "put(U(e0,e1,e2,e3,e4,e5,e6),o);", "puts_(S::one(),o); " + " ".join("pute(e%d,o+%d);" % (i, 4 + 2 * i) for i in range(7)), "Units(seven exponents) is unscaled")
    same = " && ".join("u.m_units[%d]==v.m_units[%d]" % (i, i) for i in range(7))
    d.e("equality", "ueq", "bool", [u, v], "return u==v;", "return u.m_scaling==v.m_scaling && %s;" % same, "u==v: same scaling and exponents, whatever the names")
    d.alt("ueq", "return u.m_scaling==v.m_scaling && %s;" % same.replace("u.m_units[0]==v.m_units[0]", "u.m_units[0].num==v.m_units[0].num && u.m_units[0].den==v.m_units[0].den"))
    d.e("equality", "une", "bool", [u, v], "return u!=v;", "return !(u==v);", "u!=v")
    zero = " && ".join("u.m_units[%d].num==0" % i for i in range(7))
    d.e("equality", "dimless", "bool", [u], "return u.is_dimensionless();", "return %s;" % zero, "is_dimensionless: every exponent is zero")
    d.e("equality", "scaled", "bool", [u], "return u.is_scaled();", "return !(u.m_scaling==S::one());", "is_scaled: the scaling is not one")
    return d


def drv_table():
    d = Drv("#pragma clang diagnostic ignored \"-Wdeprecated-declarations\"\n" + PREU + "namespace EU = ekat::units;\n")
    for n, (sym, e, k) in TABLE.items():
        d.raw('static_assert(named(EU::%s,"%s"), "TYPEWIT %s: symbol");' % (n, sym, n))
        d.raw('static_assert(dims(EU::%s,%s), "TYPEWIT %s: dimensions");' % (n, e, n))
        d.raw('static_assert(scaled(EU::%s,%s), "TYPEWIT %s: scaling");' % (n, k, n))
        d.e("named units", n, "int", [], "return 3;", "return 3;", "units::%s: symbol, dimensions and scaling" % n)
    for n, p in PREFIX.items():
        d.raw('static_assert(ekat::prefixes::%s.base==R(10) && ekat::prefixes::%s.exp==R(%d), "TYPEWIT %s: prefix");' % (n, n, p, n))
        d.e("named units", n, "int", [], "return 3;", "return 3;", "prefixes::%s is 10^%d" % (n, p))
    return d


def check(pid, tier):
    rep = Report(pid, tier, "scaling factors and units combine like the quantities they stand for; named units have their SI dimensions")
    o = dict(transparent_trunc=True)
    fl = flags(True, kokkos=False)
    run_pairs(rep, "sf", drv_sf(), fl, opaque=ERR, extra=["--unfold=RationalConstant::fix_"], opts=o, pureref=ROPS)
    run_pairs(rep, "units", drv_units(), fl + ["-fno-access-control"], opaque=ERR, extra=["--unfold=RationalConstant::fix_"], opts=o, pureref=UOPS, values=True)
    run_pairs(rep, "table", drv_table(), fl + ["-fno-access-control"], opaque=ERR)
    for r, n in (("construction", 8), ("product", 20), ("equality", 8), ("power", 4), ("scaling", 8), ("naming", 2), ("named units", len(TABLE) + len(PREFIX))):
        rep.need(r, n)
    rep.assumptions += ["rational operations are uninterpreted functions with the unit and commutativity laws of canonical rationals (their definitions are decided by P13)",
                        "the symbol of a unit takes no part in products, powers and comparisons and is not decided here, except for the named units"]
    return rep.finish("value-graph comparison of every ScalingFactor and Units operation with the formula over base, exponent and the seven dimension exponents; static_assert table for named units and prefixes")
