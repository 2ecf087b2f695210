"""P13: rational constants are exact and canonical."""
import math
from pairs import *

INC = r'''
#include <cstdlib>
#include <array>
#include <string>
#include <sstream>
#include <iostream>
#define RS __restrict
using u = unsigned long;
using L = long long;
#define die() std::abort()
'''
PRE = INC + r'''
#include "ekat_rational_constant.hpp"
using R = ekat::RationalConstant;
namespace {
inline R raw(L n, L d){ R r(0); r.num=n; r.den=d; return r; }
inline void put(const R& r, L* o){ o[0]=r.num; o[1]=r.den; }
inline R mk(L n, L d){ return R(n,d); }
}
// the function itself one recursive step further down
extern "C" R rec_pow(const R&, L);
extern "C" R rec_powi(const R&, int);
extern "C" L rec_gcdL(L,L);
extern "C" int rec_gcdint(int,int);
static_assert(!std::is_constructible<R,double>::value && !std::is_constructible<R,float>::value, "TYPEWIT ctor2l: no construction from floating point");
static_assert(std::is_same<R::iType,long long>::value && sizeof(R)==2*sizeof(long long), "TYPEWIT ctor2l: numerator and denominator are 64-bit integers");
'''
ERR = [r"^std::__throw", r"^std::__cxx11", r"^std::(basic_)?o", r"^operator new", r"^operator delete", r"^__cxa", r"^std::invalid_argument", r"^std::length_error"]
SIGNS = (("p", ">0"), ("z", "==0"), ("m", "<0"))


C2 = [(0, 8, "i64"), (8, 8, "i64")]
C4 = [(0, 8, "i64"), (8, 8, "i64"), (16, 8, "i64"), (24, 8, "i64")]
RC = r"ekat::RationalConstant const&"


def radd(G, x):
    """canonical rationals: 0 + y is y"""
    for a, b in ((x[:2], x[2:4]), (x[2:4], x[:2])):
        if a == [G.ZERO, G.ONE]:
            return b


def rsub(G, x):
    if x[2:4] == [G.ZERO, G.ONE]:
        return x[:2]
    if x[:2] == x[2:4]:
        return [G.ZERO, G.ONE]


def rmul(G, x):
    for a, b in ((x[:2], x[2:4]), (x[2:4], x[:2])):
        if a == [G.ONE, G.ONE]:
            return b
        if a == [G.ZERO, G.ONE]:
            return a


def rdiv(G, x):
    if x[2:4] == [G.ONE, G.ONE]:
        return x[:2]


def gcd(G, x):
    """of non-negative numbers"""
    a, b = (G.is_const(v) for v in x)
    if a == 1 or b == 1:
        return G.ONE
    if a == 0:
        return x[1]
    if b == 0:
        return x[0]
    if a is not None and b is not None:
        return G.const(math.gcd(a, b))


ROPS = {
    r"ekat::gcd<": {"as": "gcd", "commut": 1, "fold": gcd},
    r"^ekat::operator\*\(%s, %s\)" % (RC, RC): {0: C2, 1: C2, "as": "rmul", "commut": 2, "fold": rmul},
    r"^ekat::operator\+\(%s, %s\)" % (RC, RC): {0: C2, 1: C2, "as": "radd", "commut": 2, "fold": radd},
    r"^ekat::operator-\(%s, %s\)" % (RC, RC): {0: C2, 1: C2, "as": "rsub", "fold": rsub},
    r"^ekat::operator/\(%s, %s\)" % (RC, RC): {0: C2, 1: C2, "as": "rdiv", "fold": rdiv},
    r"^ekat::RationalConstant::operator-\(\)": {0: C2, "as": "rneg"},
    r"ekat::pow<(long long|long|int)>\(%s" % RC: {0: C2, "as": "rpow"},
}


def drv_ctor():
    """the constructor, one case per sign of numerator and denominator"""
    d = Drv(PRE)
    O = [("L* RS", "o")]
    for T, t in (("L", "l"), ("int", "i"), ("unsigned", "u"), ("short", "s"), ("unsigned long", "ul")):
        sg = [s for s in SIGNS if not (t[0] == "u" and s[0] == "m")]
        for a, ca in sg:
            N = "(%s)0" % T if a == "z" else "n"
            an = "-(L)n" if a == "m" else "(L)n" if a == "p" else "0LL"
            for b, cb in sg:
                if b == "z":
                    continue
                nm = "ctor2%s_%s%s" % (t, a, b)
                P = ([] if a == "z" else [(T, "n")]) + [(T, "d")] + O
                g = "if(!(d%s)) return; " % cb + ("if(!(n%s)) return; " % ca if a != "z" else "")
                ad = "-(L)d" if b == "m" else "(L)d"
                sn = "" if a != b else ""
                num = an if (a == "p") == (b == "p") else "-(%s)" % an       # |n| with the sign of n*d
                d.e("lowest terms", nm, "void", P, g + "put(R(%s,d),o);" % N, g + "die();", "RationalConstant(%s,%s): lowest terms, positive denominator (n%s, d%s)" % (T, T, ca, cb))
                for gc in ("ekat::gcd<L>(%s,%s)" % (an, ad), "ekat::gcd<L>(%s,%s)" % (ad, an)):
                    if a == "z":
                        d.alt(nm, g + "o[0]=0; o[1]=(%s)/%s;" % (ad, gc))
                        d.alt(nm, g + "o[0]=0; o[1]=1;")
                        continue
                    for f in ("(-(%s))/%s", "-((%s)/%s)", "(%s)/(-%s)") if (a == "p") != (b == "p") else ("(%s)/%s", "-((-(%s))/%s)", "(-(%s))/(-%s)"):
                        d.alt(nm, g + "L g=%s; o[0]=%s; o[1]=(%s)/g;" % (gc, f % (an, "g"), ad))
            nm = "ctor2%s_%sz" % (t, a)
            g = "if(!(n%s)) return; " % ca if a != "z" else ""
            d.e("zero denominator", nm, "void", ([] if a == "z" else [(T, "n")]) + O, g + "put(R(%s,(%s)0),o);" % (N, T), g + "die();", "RationalConstant(%s,0) is rejected (n%s)" % (T, ca))
            nm = "ctor1%s_%s" % (t, a)
            d.e("lowest terms", nm, "void", ([] if a == "z" else [(T, "n")]) + O, g + "put(R(%s),o);" % N, g + "put(R(%s,(%s)1),o);" % (N, T), "RationalConstant(%s) is n/1 (n%s)" % (T, ca))
            d.alt(nm, g + "o[0]=%s; o[1]=1;" % N)
    return d


def drv_arith():
    d = Drv(PRE)
    O = [("L* RS", "o")]

    def e(name, params, t, nd, what, pre=""):
        d.e("arithmetic", name, "void", params + O, t, pre + "put(R((L)(%s),(L)(%s)),o);" % nd, what)
    A = [("L", "a"), ("L", "b")]
    B = [("L", "c"), ("L", "d")]
    X, Y = "R x=raw(a,b); ", "R y=raw(c,d); "
    SUB = "put(x+(-y),o);"
    e("neg", A, X + "put(-x,o);", ("-a", "b"), "unary minus")
    d.alt("neg", "o[0]=-a; o[1]=b;")
    d.alt("neg", "put(R(a,-b),o);")
    for nm, op, n, dd in (("add", "+", "a*d+b*c", "b*d"), ("sub", "-", "a*d-b*c", "b*d"), ("mul", "*", "a*c", "b*d"), ("div", "/", "a*d", "b*c")):
        e(nm, A + B, X + Y + "put(x%sy,o);" % op, (n, dd), "x%sy" % op)
        if op == "-":
            d.alt(nm, X + Y + SUB)
    for T, t in (("int", "i"), ("L", "l"), ("unsigned", "u")):
        k = "R k0(k); L c=k0.num,d=k0.den; "
        for nm, op, n, dd in (("add", "+", "a*d+b*c", "b*d"), ("sub", "-", "a*d-b*c", "b*d"), ("mul", "*", "a*c", "b*d"), ("div", "/", "a*d", "b*c")):
            e(nm + t, A + [(T, "k")], X + "put(x%sk,o);" % op, (n, dd), "x%sk, k a %s" % (op, T), k)
            if op == "-":
                d.alt(nm + t, X + "R y(k); " + SUB)
        e("rdiv" + t, A + [(T, "k")], X + "put(k/x,o);", ("c*b", "d*a"), "k/x, k a %s" % T, k)
        e("rsub" + t, A + [(T, "k")], X + "put(k-x,o);", ("c*b-d*a", "d*b"), "k-x, k a %s" % T, k)
        d.alt("rsub" + t, "R x(k), y=raw(a,b); " + SUB)
    d.e("comparison", "eq", "bool", A + B, X + Y + "return x==y;", "return a*d==b*c;", "x==y")
    d.alt("eq", "return a==c && b==d;")
    d.e("comparison", "ne", "bool", A + B, X + Y + "return x!=y;", "return a*d!=b*c;", "x!=y")
    d.alt("ne", "return a!=c || b!=d;")
    for nm, v in (("one", 1), ("zero", 0)):
        d.e("arithmetic", nm, "void", O, "put(R::%s(),o);" % nm, "put(R((L)%d),o);" % v, "RationalConstant::%s()" % nm)
        d.alt(nm, "o[0]=%d; o[1]=1;" % v)
    d.e("arithmetic", "copy", "void", A + B + O, X + Y + "R z(x); y=z; put(y,o);", "o[0]=a; o[1]=b;", "copies are exact")
    return d


PW = {k: v for k, v in ROPS.items() if "pow" not in k}
PW[r"^rec_pow|ekat::pow<.*\(\.rec\)"] = {0: C2, "as": "pow"}
GCD = {k: v for k, v in ROPS.items() if "gcd" in k}


# square and multiply, one factor at a time
ITER = ("R r=R::one(), q=x; for(T e=p; e>0; e>>=1){ if(e&1) r=r*q; if(e>1) q=q*q; } ",
        "R r=R::one(), q=x; for(T e=p; e>0; e>>=1){ if(e&1) r=r*q; q=q*q; } ",
        "R r=R::one(), q=x; for(T e=p; e>0; e/=2){ if(e%2) r=r*q; q=q*q; } ",
        "R r=R::one(), q=x; for(T e=p; e>0; e/=2){ if(e%2) r=r*q; if(e>1) q=q*q; } ",
        "R r=R::one(); for(T i=0; i<p; ++i) r=r*x; ",
        "R r=x; for(T i=1; i<p; ++i) r=r*x; ")


def drv_pow():
    d = Drv(PRE)
    for T, t, rec in (("L", "l", "rec_pow"), ("int", "i", "rec_powi")):
        P = [("L", "a"), ("L", "b")]
        X = "R x=raw(a,b); "
        O = [("L* RS", "o")]
        q = [(T, "p")]
        nm = "pow" + t
        d.e("power", nm + "_neg", "void", P + q + O, "if(!(p<0)) return; " + X + "put(ekat::pow(x,p),o);", "if(!(p<0)) return; put(%s(R(b,a),-p),o);" % rec, "pow(x,p), p<0, is pow(1/x,-p)")
        d.alt(nm + "_neg", "if(!(p<0)) return; " + X + "put(%s(1/x,-p),o);" % rec)
        d.alt(nm + "_neg", "if(!(p<0)) return; " + X + "put(1/%s(x,-p),o);" % rec)
        d.e("power", nm + "_0", "void", P + O, "if(a==0) return; " + X + "put(ekat::pow(x,(%s)0),o);" % T, "if(a==0) return; o[0]=1;o[1]=1;", "pow(x,0) is one for x!=0")
        d.alt(nm + "_0", "if(a==0) return; put(R(1),o);")
        d.e("power", nm + "_00", "void", P + O, "if(a!=0) return; " + X + "put(ekat::pow(x,(%s)0),o);" % T, "if(a!=0) return; die();", "pow(0,0) is rejected")
        d.e("power", nm + "_1", "void", P + O, X + "put(ekat::pow(x,(%s)1),o);" % T, "o[0]=a; o[1]=b;", "pow(x,1) is x")
        d.alt(nm + "_1", X + "put(x*R(1),o);")
        for par, c, res in (("even", "(p&1)==0", "%s(x*x,p>>1)"), ("odd", "(p&1)!=0", "x*%s(x*x,p>>1)")):
            g = "if(!(p>1) || a==0 || !(%s)) return; " % c
            n = nm + "_" + par
            d.e("power", n, "void", P + q + O, g + X + "put(ekat::pow(x,p),o);", g + X + "put(" + res % rec + ",o);", "pow(x,p), p>1 %s, is %s" % (par, res % "pow"))
            d.alt(n, g + X + "put(x*%s(x,p-1),o);" % rec)
            for half in ("p>>1", "p/2") + (("(p-1)/2", "(p-1)>>1") if par == "odd" else ()):
                if par == "odd":
                    d.alt(n, g + X + "put(x*%s(x*x,%s),o);" % (rec, half))
                    d.alt(n, g + X + "R h=%s(x,%s); put(x*(h*h),o);" % (rec, half))
                    d.alt(n, g + X + "R h=%s(x,%s); put(h*(h*x),o);" % (rec, half))
                else:
                    d.alt(n, g + X + "put(%s(x*x,%s),o);" % (rec, half))
                    d.alt(n, g + X + "R h=%s(x,%s); put(h*h,o);" % (rec, half))
            for it in ITER:
                d.alt(n, g + X + it.replace("T ", T + " ") + "put(r,o);")
        for it in ITER:
            d.alt(nm + "_0", "if(a==0) return; " + X + T + " p=0; " + it.replace("T ", T + " ") + "put(r,o);")
            d.alt(nm + "_1", X + T + " p=1; " + it.replace("T ", T + " ") + "put(r,o);")
        n = nm + "_zero"
        d.e("power", n, "void", q + O, "if(!(p>1)) return; R x(0); put(ekat::pow(x,p),o);", "if(!(p>1)) return; o[0]=0; o[1]=1;", "pow(0,p), p>1, is zero")
        for it in ITER:
            d.alt(n, "if(!(p>1)) return; R x(0); " + it.replace("T ", T + " ") + "put(r,o);")
        for res in ("%s(R(0),p>>1)", "R(0)*%s(R(0),p>>1)", "R(0)*%s(R(0),p-1)"):
            d.alt(n, "if(!(p>1)) return; put(" + res % rec + ",o);")
    return d


def drv_gcd():
    d = Drv(PRE)
    for T in ("L", "int"):
        P = [(T, "a"), (T, "b")]
        n = "gcd" + T
        d.e("gcd", n, T, P, "return ekat::gcd<%s>(a,b);" % T, "return b==0 ? a : rec_gcd%s(b,a%%b);" % T, "gcd<%s> is Euclid's algorithm" % T)
        d.alt(n, "return b==0 ? a : (a%%b==0 ? b : rec_gcd%s(b,a%%b));" % T)
        d.alt(n, "while(b!=0){ %s t=a%%b; a=b; b=t; } return a;" % T)
        d.alt(n, "for(;;){ if(b==0) return a; %s t=a%%b; a=b; b=t; }" % T)
        d.e("gcd", "abs" + T, T, P[:1], "return ekat::abs<%s>(a);" % T, "return a<0?-a:a;", "abs<%s>" % T)
    return d


def check(pid, tier):
    rep = Report(pid, tier, "every operation on rational constants yields the exact rational result in lowest terms with a positive denominator")
    o = dict(nowrap=True, transparent_trunc=True)
    fl = flags(True, kokkos=False)
    un = ["--unfold=RationalConstant::fix_"]
    run_pairs(rep, "rctor", drv_ctor(), fl, opaque=ERR, extra=un, opts=o, pureref=GCD)
    run_pairs(rep, "rarith", drv_arith(), fl, opaque=ERR, extra=un, opts=o, pureref=GCD)
    run_pairs(rep, "rpow", drv_pow(), fl, opaque=ERR, extra=un + ["--unfold=ekat::pow<@1", "--exact-unroll"], opts=o, pureref=PW)
    run_pairs(rep, "gcd", drv_gcd(), fl, opaque=ERR, extra=["--unfold=ekat::gcd<@1"], pureref={r"ekat::gcd<.*\(\.rec\)|^rec_gcd": {"as": "gcd"}})
    for r, n in (("lowest terms", 60), ("zero denominator", 10), ("arithmetic", 40), ("comparison", 2), ("power", 20), ("gcd", 4)):
        rep.need(r, n)
    rep.assumptions += ["64-bit numerators, denominators and their products do not overflow",
                        "gcd is taken of non-negative numbers, as every caller in the header does; it is compared with one step of Euclid's algorithm (or its loop), the rest follows by induction",
                        "pow is compared one recursion step at a time (square-and-multiply, linear or iterative forms); the rest follows by induction on the exponent",
                        "operands of binary operations are canonical (results of the constructor)"]
    return rep.finish("value-graph comparison of the constructor (per sign of numerator and denominator and integer type), each operator, comparison, pow and gcd with the exact rational formula")
