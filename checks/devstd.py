"""P09: the device-side replacements of standard algorithms select what the standard ones select."""
from pairs import *
from fractions import Fraction

PRE = r'''
#include <Kokkos_Core.hpp>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <limits>
#include "ekat_math_utils.hpp"
#include "ekat_upper_bound.hpp"
#include "ekat_kokkos_str_utils.hpp"
#define RS __restrict
using u = unsigned long;
'''


def drv(T, gpu):
    d = Drv(PRE + "namespace { using T=%s; }\n" % T)
    ab = [("const T&", "a"), ("const T&", "b")]
    # reference results: identity of the selected object, as for the standard functions
    d.e("select", "min", "const T*", ab, "return &ekat::impl::min(a,b);", "return b<a ? &b : &a;", "impl::min(a,b): which operand is selected")
    d.e("select", "max", "const T*", ab, "return &ekat::impl::max(a,b);", "return a<b ? &b : &a;", "impl::max(a,b): which operand is selected")
    d.e("select", "minv", "T", [("T", "a"), ("T", "b")], "return ekat::impl::min(a,b);", "return b<a ? b : a;", "impl::min(a,b)")
    d.e("select", "maxv", "T", [("T", "a"), ("T", "b")], "return ekat::impl::max(a,b);", "return a<b ? b : a;", "impl::max(a,b)")
    d.e("select", "maxel", "const T*", [("const T* RS", "p"), ("unsigned short", "n")], "return ekat::impl::max_element(p,p+n);", "const T* m=p; for(const T* it=p+1; it<p+n; ++it) if(*m<*it) m=it; return m;" if gpu else "return std::max_element(p,p+n);", "impl::max_element: first largest element")
    lim = [("T* RS", "mn"), ("T* RS", "mx"), ("T", "a"), ("T", "b")]
    d.e("select", "smm", "void", lim, "ekat::impl::set_min_max(a,b,*mn,*mx);", "*mn= b<a?b:a; *mx= a<b?b:a;", "set_min_max(a,b,min,max)")
    if T in ("int", "long"):
        d.e("select", "smmv", "void", lim + [("int", "v")], "ekat::impl::set_min_max(a,b,*mn,*mx,v);", "T lo= b<a?b:a, hi= a<b?b:a; *mn=lo/v; *mx=hi/v;", "set_min_max(a,b,min,max,width)")
    if T in ("double", "float"):
        d.e("classify", "nan", "bool", [("T", "a")], "return ekat::impl::is_nan(a);", "return a!=a;", "is_nan")
        d.e("classify", "fin", "bool", [("T", "a")], "return ekat::impl::isfinite(a);", "return __builtin_isfinite(a);", "isfinite")
        d.e("classify", "rel", "T", [("T", "a"), ("T", "b")], "return ekat::impl::rel_diff(a,b);", "return std::abs(b-a)/std::abs(a);", "rel_diff")
        d.e("classify", "inv", "T", [], "return ekat::invalid<T>();", "return std::numeric_limits<T>::quiet_NaN();", "invalid<T>()")
    d.e("search", "ub", "const T*", [("const T* RS", "p"), ("const T* RS", "q"), ("const T& RS", "v")], "return ekat::upper_bound(p,q,v);", "return p;" if gpu else "return std::upper_bound(p,q,v);", "upper_bound")
    return d


def drv_str():
    d = Drv(PRE)
    s = [("const char* RS", "a"), ("const char* RS", "b")]
    d.e("string", "len", "u", [("const char* RS", "a")], "return ekat::impl::strlen(a);", "u n=0; while(a[n]!=0) ++n; return n;", "strlen")
    d.e("string", "cpy", "void", [("char* RS", "o"), ("const char* RS", "a")], "ekat::impl::strcpy(o,a);", "u i=0; for(;;++i){ char c=a[i]; o[i]=c; if(c==0) break; }", "strcpy")
    d.alt("cpy", "u i=0; while(a[i]!=0){ o[i]=a[i]; ++i; } o[i]=0;")
    d.alt("cpy", "u n=0; while(a[n]!=0) ++n; for(u i=0;i<=n;++i) o[i]=a[i];")
    d.e("string", "cmp", "bool", s, "return ekat::impl::strcmp(a,b)==0;", "u i=0; while(a[i]!=0 && a[i]==b[i]) ++i; return a[i]==b[i];", "strcmp")
    for nm, op in (("lt", "<"), ("gt", ">")):
        d.e("string", "cmp" + nm, "bool", s, "return ekat::impl::strcmp(a,b)%s0;" % op, "u i=0; while(a[i]!=0 && a[i]==b[i]) ++i; return (int)(unsigned char)a[i]%s(int)(unsigned char)b[i];" % op, "strcmp sign")
    return d


class NotSearch(Exception):
    pass


def bisection(G, F, size):
    """Interval-narrowing rule for a bisection that returns the first element
    greater than a value: the interval [lo,hi) starts as [first,last); every
    iteration probes one element of it and keeps exactly the part the
    comparison allows; it ends when the interval is empty."""
    p, q, v = (G.mk("arg", i) if False else None for i in range(3))
    args = {a: n for n, a in enumerate(("p", "q", "v"))}
    p, q = F.op(["a", 0]), F.op(["a", 1])
    vp = F.op(["a", 2])
    n = 0
    if len(F.loops) != 1:
        raise NotSearch("%d loops, a bisection has one" % len(F.loops))
    L = list(F.loops.values())[0]
    mus = [x for x in L["phis"] if x["kind"] == "mu"]
    if any(x["kind"] != "mu" for x in L["phis"]):
        raise NotSearch("a bound advances by a fixed amount")
    last = []
    for A in mus:
        for B in mus:
            if A is B:
                continue
            for form in ("len", "end", "idxlen", "idxend"):
                try:
                    return tryform(G, F, L, A, B, form, p, q, vp, size)
                except NotSearch as e:
                    last.append(str(e))
    best = [x for x in last if "must" in x] or last
    raise NotSearch(best[0] if best else "no interval [lo,hi) among the carried values")


def tryform(G, F, L, A, B, form, p, q, vp, size):
    cnt = G.padd(q, p, -1)

    def isdist(n, pos=True):        # (q-p)/size
        k = G.keys[n]
        return n == cnt and size == 1 or k[0] == "div" and k[2].i == cnt and k[3] == size
    S = G.const(size)
    a, b = A["val"], B["val"]
    if form == "len":
        ok = A["init"] == p and isdist(B["init"])
        lo, hi = (lambda x, y: x), (lambda x, y: G.padd(x, G.pmul(S, y)))
    elif form == "end":
        ok = A["init"] == p and B["init"] == q
        lo, hi = (lambda x, y: x), (lambda x, y: y)
    elif form == "idxlen":
        ok = A["init"] == G.ZERO and isdist(B["init"])
        lo, hi = (lambda x, y: G.padd(p, G.pmul(S, x))), (lambda x, y: G.padd(p, G.pmul(S, G.padd(x, y))))
    else:
        ok = A["init"] == G.ZERO and isdist(B["init"])
        lo, hi = (lambda x, y: G.padd(p, G.pmul(S, x))), (lambda x, y: G.padd(p, G.pmul(S, y)))
    if not ok:
        raise NotSearch("the carried values do not start as the whole range")
    Lo, Hi = lo(a, b), hi(a, b)
    if len(A["nextv"]) != 1 or len(B["nextv"]) != 1:
        raise NotSearch("several back edges")
    an, bn = A["nextv"][0], B["nextv"][0]
    # the decision: value < *it
    conds = {c for c in G.conds(an)} | {c for c in G.conds(bn)}
    if len(conds) != 1:
        raise NotSearch("each iteration must decide on exactly one comparison, it uses %d" % len(conds))
    c = conds.pop()
    k = G.keys[c]
    if k[0] != "cmp":
        raise NotSearch("the decision must compare the value with an element")
    less, addr = decide(G, F, k, vp)
    if addr is None:
        raise NotSearch("the decision must be `value < element`, it is %s" % G.s(c))
    it = addr
    d = G.padd(it, Lo, -1)
    s, ln = d, G.padd(Hi, Lo, -1)
    if not inside(G, d, ln, size):
        raise NotSearch("the probed element %s must lie inside [lo,hi) (hi-lo = %s)" % (G.s(s), G.s(ln)))
    for val, wl, wh, nm in ((less, Lo, it, "value < element"), (not less, G.padd(it, S), Hi, "value >= element")):
        x, y = G.cof(an, c, val), G.cof(bn, c, val)
        nl, nh = lo(x, y), hi(x, y)
        if nl != wl or nh != wh:
            raise NotSearch("when %s the interval must become [%s,%s), it becomes [%s,%s)" % (nm, G.s(wl), G.s(wh), G.s(nl), G.s(nh)))
    # ends when empty; result
    # (the loop may be rotated: the end test and the result then use the next bounds)
    nLo, nHi = G.lift(lo, [an, bn]), G.lift(hi, [an, bn])
    r = F.ret
    tops = [r]
    if G.keys[r][0] == "ite" and p in G.keys[r][2:4]:
        tops.append(G.keys[r][3] if G.keys[r][2] == p else G.keys[r][2])
    if not any(x in (Lo, Hi, nLo, nHi) for x in tops):
        raise NotSearch("the result must be the bound of the final interval, it is %s" % G.s(r))
    ends = []
    for l, h in ((Lo, Hi), (nLo, nHi)):
        w = G.lift(lambda x, y: G.padd(y, x, -1), [l, h])
        for pr, cst in (("slt", S), ("slt", G.ONE), ("eq", G.ZERO), ("ult", S), ("ult", G.ONE)):
            ends.append(F.cmp(pr, w, cst))
        ends += [G.NOT(F.cmp("slt", l, h)), G.NOT(F.cmp("ult", l, h)), F.cmp("eq", l, h)]
    ex = [cc for _, _, _, cc, dead in L["exits"] if not dead]
    if not ex:
        raise NotSearch("the search never ends")
    for e in ex:
        if e not in ends:
            raise NotSearch("the search must end exactly when the interval is empty, it ends when %s" % G.s(e))
    return 6


def decide(G, F, k, vp):
    """(truth value of the atom that means value<element, element address)"""
    def addr(n):
        kk = G.keys[n]
        return kk[1].i if kk[0] == "ld" else None
    l, r = k[2].i, k[3].i
    if k[1] == "olt":
        return (True, addr(r)) if addr(l) == vp and addr(r) is not None else (None, None)
    if k[1] not in ("slt", "ult"):
        return None, None
    t = dict(G.terms(G.padd(l, r, -1)))
    c = t.pop((), 0)
    if len(t) != 2 or any(len(m) != 1 for m in t):
        return None, None
    cell = {addr(m[0]): x for m, x in t.items()}
    if None in cell or vp not in cell:
        return None, None
    e = [a for a in cell if a != vp][0]
    if cell[vp] == 1 and cell[e] == -1 and c == 0:      # v-e<0
        return True, e
    if cell[vp] == -1 and cell[e] == 1 and c == -1 and k[1] == "slt":     # e-v<1
        return False, e
    return None, None


def ratio(G, n, neg=False):
    """polynomial with rational coefficients: divisions taken exactly (they
    round down, so the true value is at most this); None if one is subtracted"""
    out = {}
    for m, c in G.terms(n).items():
        k = G.keys[m[0]] if len(m) == 1 else ("",)
        if k[0] == "div":
            sub = ratio(G, k[2].i)
            if sub is None or c < 0:
                return None
            for mm, x in sub.items():
                out[mm] = out.get(mm, 0) + x * Fraction(c, k[3])
        else:
            out[m] = out.get(m, 0) + Fraction(c)
    return {m: x for m, x in out.items() if x}


def inside(G, s, ln, size):
    """0 <= s < ln (in bytes) for every nonempty interval: s is ln/k, or
    (ln-1 element)/k, rounded down, k >= 2"""
    a, b = ratio(G, s), ratio(G, ln)
    if a is None or b is None or not b:
        return False
    m = min(x for x in b if x != ()) if any(x != () for x in b) else None
    if m is None or m not in a:
        return False
    k = b[m] / a[m]
    if k < 2 or k.denominator != 1:
        return False
    r = {x: a.get(x, 0) * k - b.get(x, 0) for x in set(a) | set(b)}
    c = r.pop((), 0)
    return not any(r.values()) and c in (0, -size)


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality with the standard definition; interval-narrowing rule for the bisection")
    jobs = [(T, g) for T in ("double", "float", "int") + (("long", "unsigned") if tier == "thorough" else ()) for g in (1, 0)] + [("str", 1), ("str", 0)]

    def one(j):
        T, gpu = j
        sub = Report(pid, tier, "")
        fl = flags(True, defs=["EKAT_ENABLE_GPU"] if gpu else [])
        note = " [%s, %s branch]" % (T, "device" if gpu else "host")
        if T == "str":
            if gpu:
                run_pairs(sub, "ds_str", drv_str(), fl, note=note, opts=dict(transparent_trunc=True))
            return sub
        d = drv(T, gpu)
        if gpu:
            d.what.pop("ub")
        run_pairs(sub, "ds_%s%d" % (T, gpu), d, fl, note=note)
        if not gpu:
            return sub
        J = emit("dsb_%s%d" % (T, gpu), d.text(), fl)
        f = {x["name"]: x for x in J["functions"]}["t_ub"]
        G = Graph()
        F = Fn(G, f, opts=dict(transparent_trunc=True, nowrap=True))
        try:
            sub.ok("search", bisection(G, F, 4 if T in ("float", "int", "unsigned") else 8))
            sub.sample(api="upper_bound" + note, rule="interval narrowing")
        except NotSearch as e:
            where = "?"
            for i in F.loops.values():
                from compare import loopwhere
                where = loopwhere(F, {0: i})
            sub.bad("search", where, "upper_bound%s: %s" % (note, e), key="search|ub")
        return sub
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(select=30, classify=12, search=20, string=3).items():
        rep.need(r, k)
    return rep.finish("Both preprocessor branches of the helpers are compiled; the device branch is compared with the definition of the standard function it replaces.")
