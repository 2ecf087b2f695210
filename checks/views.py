"""P07: subviews and reshape; P08: broadcast views."""
from pairs import *

PRE = r'''
#include <Kokkos_Core.hpp>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "ekat_kernel_assert.hpp"
#include "ekat_pack.hpp"
#include "ekat_subview_utils.hpp"
#include "ekat_view_utils.hpp"
#include "ekat_view_broadcast.hpp"
#define RS __restrict
using u = unsigned long;
namespace {
template<class D> using V = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace>;
template<class D> using VU = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
template<class D> using VR = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged|Kokkos::Restrict>>;
template<class D> using VS = Kokkos::View<D, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
template<class A, class B> constexpr bool same = std::is_same<A,B>::value;
template<class S> constexpr bool unmanaged = S::traits::memory_traits::is_unmanaged;
}
'''


def lin(ix, es):
    s = "0"
    for k, (i, e) in enumerate(zip(ix, es)):
        s = "((%s)*(u)%s+%s)" % (s, e, i)
    return s


def sources(r):
    """(tag, parameters, statement building rank-r view v, extents, address formula)"""
    es = ["e%d" % i for i in range(r)]
    for kind in ("VU", "V") + (("VR",) if r == 2 else ()):
        yield kind, [("unsigned short", e) for e in es], kind + "<%s> v(p," + ",".join(es) + ");", es, lambda ix, es=es: lin(ix, es)
    if 2 <= r <= 5:
        # a slice of a larger array: the first stride is not the product of the other extents
        mk = "VU<%s*> w(p," + ",".join([es[0], "q"] + es[1:]) + "); " + ("VU<%s> v(Kokkos::subview(w,Kokkos::ALL,qi,Kokkos::ALL));" if r == 2 else "VU<%s> v=ekat::subview_1(w,qi);")
        yield "pad", [("unsigned short", e) for e in es + ["q", "qi"]], mk, es, lambda ix, es=es: lin([ix[0], "qi"] + list(ix[1:]), [es[0], "q"] + es[1:])


def drv_sub(T, debug):
    d = Drv(PRE + "namespace { using T=%s; }\n" % T)

    def entry(group, tag, r, src, call, outidx, ext, addr, what, chk, lay, cst, extra=()):
        kind, par, mk, es, _ = src
        if debug and kind == "pad":
            return
        D = "%sT%s" % (cst, "*" * r)
        mk = mk % ((D,) * mk.count("%s"))
        ps = [("%sT* RS" % cst, "p")] + par + list(extra)
        n = len(outidx)
        if debug:
            d.e(group, tag + "_g", "void", ps, mk + "auto s=%s; (void)s;" % call, "if(p==nullptr) std::abort(); %s" % chk, what + ": rejects exactly the invalid arguments")
            return
        jp = [("u", j) for j in outidx]
        wit = "static_assert(decltype(s)::rank==%d && unmanaged<decltype(s)> && same<decltype(s)::value_type,%sT> && same<decltype(s)::array_layout,Kokkos::Layout%s>, \"type of the subview\");" % (n, cst, lay)
        d.e(group, tag + "_a", "const T*", ps + jp, mk + "auto s=%s; %s return &s(%s);" % (call, wit, ",".join(outidx)), "return p+%s;" % addr, what + ": address of an element")
        for k, x in enumerate(ext):
            d.e(group, tag + "_x%d" % k, "u", ps, mk + "auto s=%s; return s.extent(%d);" % (call, k), "return %s;" % x, what + ": extent %d" % k)

    def rng(ix, es):
        return "if(!(%s)) std::abort();" % " && ".join("%s>=0 && %s<(int)%s" % (i, i, e) for i, e in zip(ix, es))
    for r in range(1, 7):
        for src in sources(r):
            kind, par, mk, es, adr = src
            for cst in ("", "const "):
                if cst and (r > 3 or debug):
                    continue
                # leading indices fixed
                for m in range(1, r if r > 1 else 2):
                    ix = ["i%d" % k for k in range(m)]
                    js = ["j%d" % k for k in range(r - m)]
                    entry("subview", "s%d%d%s%s" % (r, m, kind, "c" if cst else ""), r, src, "ekat::subview(v,%s)" % ",".join(ix), js, ["(u)" + e for e in es[m:]], adr(ix + js), "subview(%s) of a rank-%d view [%s, %s]" % (",".join(ix), r, kind, cst + T), rng(ix, es), "Right", cst, [("int", i) for i in ix] if debug else [("unsigned short", i) for i in ix])
                if r >= 2:
                    js = ["j%d" % k for k in range(r - 1)]
                    entry("subview_1", "t%d%s%s" % (r, kind, "c" if cst else ""), r, src, "ekat::subview_1(v,i1)", js, ["(u)" + e for k, e in enumerate(es) if k != 1], adr([js[0], "i1"] + js[1:]), "subview_1(i1) of a rank-%d view [%s, %s]" % (r, kind, cst + T), rng(["i1"], es[1:2]), "Stride" if r == 2 else "Right", cst, [("int" if debug else "unsigned short", "i1")])
                for k in range(r):
                    js = ["j%d" % q for q in range(r)]
                    adj = [("(a+%s)" % j if q == k else j) for q, j in enumerate(js)]
                    ext = [("(u)b" if q == k else "(u)" + e) for q, e in enumerate(es)]
                    sl = "multislice"
                    entry(sl, "m%d%d%s%s" % (r, k, kind, "c" if cst else ""), r, src, "ekat::subview(v,Kokkos::pair<int,int>(a,%s)%s)" % ("b" if debug else "a+b", ",%d" % k), js, ext, adr(adj), "subview([a,b) along %d) of a rank-%d view [%s, %s]" % (k, r, kind, cst + T), "if(!(a>=0 && a<b && b<=(int)%s)) std::abort();" % es[k], "Stride", cst, [("int" if debug else "unsigned short", "a"), ("int" if debug else "unsigned short", "b")])
                if debug:
                    for tag, x, t in (("lo", "-1-(int)n", "negative"), ("hi", "%d+(int)n" % r, "%d or more" % r)):
                        entry("multislice", "m%s%d%s" % (tag, r, kind), r, src, "ekat::subview(v,Kokkos::pair<int,int>(a,b),%s)" % x, [], [], "", "subview([a,b) along x) of a rank-%d view, x %s [%s, %s]" % (r, t, kind, T), "std::abort();", "Stride", cst, [("int", "a"), ("int", "b"), ("unsigned short", "n")])
    # reshape: same data, new extents
    for ro, ext in ((0, []), (1, ["(int)a"]), (2, ["(int)a", "(int)b"])):
        for cst in ("", "const "):
            ps = [("%sT* RS" % cst, "p"), ("unsigned short", "e0"), ("unsigned short", "e1"), ("unsigned short", "a"), ("unsigned short", "b")]
            out = "%sT%s" % (cst, "*" * ro if ro else "[3]")
            mk = "V<%sT**> v(p,e0,e1); auto s=ekat::reshape<%s>(v%s);" % (cst, out, "".join("," + x for x in ext))
            js = [("u", "j%d" % k) for k in range(max(ro, 1))]
            tag = "rs%d%s" % (ro, "c" if cst else "")
            if debug:
                sz = {0: "3", 1: "(u)a", 2: "(u)a*(u)b"}[ro]
                d.e("reshape", tag + "_g", "void", ps, mk + "(void)s;", "if((u)e0*(u)e1!=%s) std::abort();" % sz, "reshape to rank %d rejects exactly a different number of elements" % ro)
            else:
                wit = "static_assert(unmanaged<decltype(s)> && same<decltype(s)::value_type,%sT>, \"type of the reshaped view\");" % cst
                d.e("reshape", tag + "_a", "const T*", ps + js, mk + wit + "return &s(%s);" % ",".join(j for _, j in js), "return p+%s;" % ("j0" if ro < 2 else "j0*(u)b+j1"), "reshape to rank %d: address of an element" % ro)
                for k in range(ro):
                    d.e("reshape", tag + "_x%d" % k, "u", ps, mk + "return s.extent(%d);" % k, "return (u)%s;" % "ab"[k], "reshape to rank %d: extent %d" % (ro, k))
    return d


def check(pid, tier):
    rep = Report(pid, tier, "symbolic address and extent equality with the index formula; rejection conditions compared in Debug")
    jobs = [("double", False), ("ekat::Pack<double,4>", False), ("double", True)]
    if tier == "thorough":
        jobs += [("int", False), ("bool", False), ("float", True)]

    def one(j):
        T, dbg = j
        sub = Report(pid, tier, "")
        run_pairs(sub, "sv_%s_%d" % (re.sub(r"\W", "_", T), dbg), drv_sub(T, dbg), flags(not dbg, kk4=True), note=" [%s%s]" % (T, ", Debug" if dbg else ""), opts=dict(transparent_trunc=True, nowrap=not dbg))
        return sub
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(subview=50, subview_1=20, multislice=60, reshape=6).items():
        rep.need(r, k)
    rep.assumptions += ["index arithmetic does not wrap"]
    return rep.finish("value-graph comparison of every subview / reinterpretation overload with its definition: address of an arbitrary element, extents and strides, and the rejected requests in Debug builds")
