"""P05: packed <-> scalar indexing: PackInfo, scalarize/repack, gathers, adjacent differences."""
from pairs import *
import pack

PRE = r'''
#include <Kokkos_Core.hpp>
#include "ekat_pack.hpp"
#include "ekat_pack_utils.hpp"
#include "ekat_pack_kokkos.hpp"
#include <cstdio>
#define RS __restrict
#define FOR(n) for (int i=0;i<n;++i)
namespace {
template<class D> using V = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace>;
template<class D> using VU = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
using u = unsigned long;
}
'''


def drv(T, n, m):
    d = Drv(PRE + "namespace { using T=%s; using P=ekat::Pack<T,%d>; using Q=ekat::Pack<T,%d>; using I=ekat::Pack<int,%d>; enum{n=%d,m=%d}; }\n" % (T, n, m, n, n, m))
    for cst in ("", "const "):
        for kind in ("V", "VU"):
            tag = ("c" if cst else "") + kind
            for r in range(0, 8):
                es = ["e%d" % i for i in range(r)]
                ix = ["i%d" % i for i in range(r)]
                P_ = ("%sP* RS" % cst, "%sT* RS" % cst, "p")
                par = [P_] + [("unsigned short", e) for e in es]
                ipar = [("u", i) for i in ix]
                mk = "%s<%sP%s> v(%s);" % (kind, cst, "*" * r, ", ".join(["p"] + es))
                lin = "0"
                for k in range(r):
                    lin = "((%s)*(u)%s+%s)" % (lin, es[k] + ("*n" if k == r - 1 else ""), ix[k])
                if kind == "VU" and r not in (1, 2, 3):
                    continue
                if r == 0:
                    if n > 1:
                        d.e("scalarize", "sc_a0%s" % tag, "const T*", par + [("u", "l")], mk + "auto s=ekat::scalarize(v); return &s(l);", "return p+l;", "scalarize of a rank-0 pack view: address of element")
                        d.e("scalarize", "sc_x0%s" % tag, "u", par, mk + "auto s=ekat::scalarize(v); return s.extent(0);", "return n;", "scalarize of a rank-0 pack view: extent")
                    continue
                d.e("scalarize", "sc_a%d%s" % (r, tag), "const T*", par + ipar, mk + "auto s=ekat::scalarize(v); return &s(%s);" % ", ".join(ix), "return p+%s;" % lin, "scalarize of a rank-%d pack view: address of element" % r)
                for k in range(r):
                    d.e("scalarize", "sc_x%d_%d%s" % (r, k, tag), "u", par, mk + "auto s=ekat::scalarize(v); return s.extent(%d);" % k, "return (u)e%d%s;" % (k, "*n" if k == r - 1 else ""), "scalarize of a rank-%d pack view: extent %d" % (r, k))
                if r in (1, 2) and kind == "V":
                    mk2 = "%s<%sT%s> v(%s);" % (kind, cst, "*" * r, ", ".join(["p"] + es))
                    d.e("scalarize", "sc_id%d%s" % (r, tag), "const T*", [("%sT* RS" % cst, "p")] + par[1:] + ipar, mk2 + "auto s=ekat::scalarize(v); return &s(%s);" % ", ".join(ix), "return p+%s;" % lin.replace("*n", ""), "scalarize of a rank-%d scalar view is the view" % r)
    # extents known at compile time
    for dyn, st in ((0, (3,)), (1, (3,)), (1, (2, 3)), (2, (3,)), (0, (2, 3)), (3, (2,))):
        for cst in ("", "const "):
            r = dyn + len(st)
            es = ["e%d" % i for i in range(dyn)] + [str(x) for x in st]
            ix = ["i%d" % i for i in range(r)]
            tag = "%d%s%s" % (dyn, "".join(map(str, st)), "c" if cst else "")
            low = "0"
            for k in range(r):
                low = "((%s)*(u)%s+%s)" % (low, es[k] + ("*n" if k == r - 1 else ""), ix[k])
            sfx, wfx = "*" * dyn + "".join("[%d]" % x for x in st), "*" * dyn + "".join("[%d]" % x for x in st[:-1]) + "[%d*n]" % st[-1]
            wit = 'static_assert(std::is_same<typename decltype(s)::data_type,%sT%s>::value, "TYPEWIT sc_d%s: scalar data type");' % (cst, wfx, tag)
            same = 'static_assert(std::is_same<typename ekat::ScalarizedDataType<%sT%s>::type,%sT%s>::value, "TYPEWIT sc_d%s: scalar data type");' % (cst, sfx, cst, sfx, tag)
            par = [("%sP* RS" % cst, "%sT* RS" % cst, "p")] + [("unsigned short", e) for e in es[:dyn]]
            d.e("scalarize", "sc_d%s" % tag, "const T*", par + [("u", i) for i in ix], "VU<%sP%s> v(%s); auto s=ekat::scalarize(v); %s%s return &s(%s);" % (cst, sfx, ",".join(["p"] + es[:dyn]), wit, same, ", ".join(ix)), "return p+%s;" % low, "scalarize of a view of Pack%s: address of element" % sfx)
    # a slice of a larger array: the first stride exceeds the product of the other extents by any amount
    def pad(D, r, st):
        es = ["e%d" % i for i in range(r)]
        return "VU<%s> w0(p,%s); auto vm=w0.impl_map(); vm.m_impl_offset.m_stride=%s; VU<%s> v(w0.impl_track(),vm); " % (D, ",".join(es), st, D)
    for r in range(2, 6):
        es = ["e%d" % i for i in range(r)]
        ix = ["i%d" % i for i in range(r)]
        for cst in ("", "const "):
            par = [("%sP* RS" % cst, "%sT* RS" % cst, "p"), ("unsigned short", "g")] + [("unsigned short", e) for e in es]
            mk = pad("%sP%s" % (cst, "*" * r), r, "g")
            low = "0"
            for k in range(1, r):
                low = "((%s)*(u)%s+%s)" % (low, es[k] + ("*n" if k == r - 1 else ""), ix[k])
            d.e("scalarize", "sc_s%d%s" % (r, "c" if cst else ""), "const T*", par + [("u", i) for i in ix], mk + "auto s=ekat::scalarize(v); return &s(%s);" % ", ".join(ix), "return p+(g*(u)n*i0+%s);" % low, "scalarize of a slice of rank %d: address of element" % r)
            d.e("scalarize", "sc_t%d%s" % (r, "c" if cst else ""), "u", par, mk + "auto s=ekat::scalarize(v); return s.stride(0);", "return g*(u)n;", "scalarize of a slice of rank %d: first stride" % r)
            if r > 3:
                continue
            for src, st, sm in (("T", "T", 1), ("Q", "Q", m)):
                par = [("%s%s* RS" % (cst, st), "%sT* RS" % cst, "p"), ("unsigned short", "g")] + [("unsigned short", e) for e in es]
                mk = pad("%s%s%s" % (cst, st, "*" * r), r, "g")
                chk = "if ((e%d*%d) %% n != 0) { printf(\"x\"); Kokkos::abort(\"\"); } if ((g*%d) %% n != 0) { printf(\"x\"); Kokkos::abort(\"\"); } " % (r - 1, sm, sm)
                low = "0"
                for k in range(1, r):
                    low = "((%s)*%s+%s)" % (low, es[k] if k < r - 1 else "(((int)(%s*%d)+n-1)/n)" % (es[-1], sm), ix[k])
                d.e("repack", "rp_s%d%s%s" % (r, src, "c" if cst else ""), "const T*", par + [("u", i) for i in ix] + [("int", "l")], mk + "auto s=ekat::repack<n>(v); return &s(%s)[l];" % ", ".join(ix), chk + "return p+((g*%dul/n)*i0+%s)*n+l;" % (sm, low), "repack<%d> of a slice of rank %d of %s: address of lane" % (n, r, st))
    # repack: scalar -> packs, packs -> packs
    for r in range(1, 4):
        es = ["e%d" % i for i in range(r)]
        ix = ["i%d" % i for i in range(r)]
        for src, st, sm in (("T", "T", 1), ("Q", "Q", m)):
            for cst in ("", "const "):
                tag = "%d%s%s" % (r, src, "c" if cst else "")
                par = [("%s%s* RS" % (cst, st), "%sT* RS" % cst, "p")] + [("unsigned short", e) for e in es]
                mk = "V<%s%s%s> v(%s);" % (cst, st, "*" * r, ", ".join(["p"] + es))
                last = "(int)(%s*%d)" % (es[-1], sm)
                chk = "if ((e%d*%d) %% n != 0) { printf(\"x\"); Kokkos::abort(\"\"); } " % (r - 1, sm)
                np_ = "((%s+n-1)/n)" % last
                lin = "0"
                for k in range(r):
                    lin = "((%s)*%s+%s)" % (lin, es[k] if k < r - 1 else np_, ix[k])
                if r == 3:  # the last extent is a multiple of n: rows of packs are rows of scalars / n
                    lin = "((e1*(u)e2*%d/n)*i0+%s*i1+i2)" % (sm, np_)
                d.e("repack", "rp_a" + tag, "const T*", par + [("u", i) for i in ix] + [("int", "l")], mk + "auto s=ekat::repack<n>(v); return &s(%s)[l];" % ", ".join(ix), chk + "return p+(%s)*n+l;" % lin, "repack<%d> of a rank-%d view of %s: address of lane" % (n, r, st))
                for k in range(r):
                    d.e("repack", "rp_x%d" % k + tag, "u", par, mk + "auto s=ekat::repack<n>(v); return s.extent(%d);" % k, chk + "return %s;" % (es[k] if k < r - 1 else np_), "repack<%d> of a rank-%d view of %s: extent %d" % (n, r, st, k))
    # gathers
    for r in range(1, 6):
        es = ["e%d" % i for i in range(r)]
        par = [("P* RS", "T* RS", "o"), ("const T* RS", "p")] + [("unsigned short", e) for e in es] + [("const I* RS", "const int* RS", "k%d" % i) for i in range(r)]
        mk = "V<const T%s> v(%s);" % ("*" * r, ", ".join(["p"] + es))
        lin = "0"
        for k in range(r):
            lin = "((%s)*(u)%s+k%d[i])" % (lin, es[k], k)
        d.e("gather", "ix%d" % r, "void", par, mk + "*o = ekat::index(v,%s);" % ",".join("*k%d" % i for i in range(r)), "FOR(n) o[i]=p[%s];" % lin, "index of a rank-%d view by packs" % r)
        d.e("gather", "ixm%d" % r, "void", par, mk.replace("const T", "T").replace("(p", "((T*)p") + "*o = ekat::index(v,%s);" % ",".join("*k%d" % i for i in range(r)), "FOR(n) o[i]=p[%s];" % lin, "index of a rank-%d non-const view by packs" % r)
    return d


def drv2(T, n, ndebug):
    d = Drv(PRE + "namespace { using T=%s; using P=ekat::Pack<T,%d>; using I=ekat::Pack<int,%d>; enum{n=%d}; }\n" % (T, n, n, n))
    for sh in (1, -1, 3):
        par = [("P* RS", "T* RS", "o"), ("P* RS", "T* RS", "q"), ("const T* RS", "p"), ("unsigned", "e"), ("const I* RS", "const int* RS", "k")]
        if ndebug:
            r = "FOR(n) { o[i]=p[k[i]]; q[i]=p[k[i]+%d]; }" % sh
        else:
            r = "FOR(n) { if ((k[i]>=0 && k[i]<(int)e) || (k[i]+%d>=0 && k[i]+%d<(int)e)) o[i]=p[k[i]]; q[i]= (k[i]+%d<0 || k[i]+%d>=(int)e) ? ekat::invalid<T>() : p[k[i]+%d]; }" % ((sh,) * 5)
        d.e("gather", "ixs%s" % str(sh).replace("-", "m"), "void", par, "V<const T*> v(p,e); ekat::index_and_shift<%d>(v,*k,*o,*q);" % sh, r, "index_and_shift<%d>" % sh)
    for fw in (1, 0):
        F = "true" if fw else "false"
        for cst in ("const P", "P"):
            tag = "%d%s" % (fw, "c" if cst[0] == "c" else "")
            par = [("P* RS", "T* RS", "o"), ("%s* RS" % cst, "const T* RS", "p"), ("int", "j"), ("int", "e")]
            if fw:
                r = "FOR(n) { T a=p[j*n+i]; T b= i<n-1 ? p[j*n+i+1] : (j<e-1 ? p[(j+1)*n] : T(0)); o[i]=T(-1)*a+T(1)*b; }"
            else:
                r = "FOR(n) { T a=p[j*n+i]; T b= i>0 ? p[j*n+i-1] : (j>0 ? p[(j-1)*n+n-1] : T(0)); o[i]=T(1)*a+T(-1)*b; }"
            d.e("adjdiff", "ad_p" + tag, "void", par, "VU<%s*> v(p,e); *o=ekat::adj_diff<%s>(v,j,e);" % (cst, F), r, "adj_diff<%s> on packs" % F)
            d.e("adjdiff", "ad_pv" + tag, "void", par, "V<%s*> v(p,(unsigned)e); *o=ekat::adj_diff<%s>(v,j);" % (cst, F), r, "adj_diff<%s>(view,i) on packs" % F)
            r = "return (j<e-1 ? p[j+1] : T(0)) - p[j];" if fw else "return j>0 ? p[j]-p[j-1] : p[j];"
            par = [("const T* RS", "p"), ("int", "j"), ("int", "e")]
            cT = cst.replace("P", "T")
            pp = "p" if cst[0] == "c" else "(T*)p"
            d.e("adjdiff", "ad_s" + tag, "T", par, "VU<%s*> v(%s,e); return ekat::adj_diff<%s>(v,j,e);" % (cT, pp, F), r, "adj_diff<%s> on scalars" % F)
            d.e("adjdiff", "ad_sv" + tag, "T", par, "V<%s*> v(%s,(unsigned)e); return ekat::adj_diff<%s>(v,j);" % (cT, pp, F), r, "adj_diff<%s>(view,i) on scalars" % F)
    return d


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of index maps, addresses, extents and gathered lanes with their closed forms")
    pack.run_groups(rep, tier, {"info"}, [("rel", flags(True))])
    combos = [("double", 4, 2), ("float", 8, 16), ("int", 1, 4)]
    if tier == "thorough":
        combos += [("double", 16, 4), ("double", 1, 1), ("float", 2, 8), ("int", 16, 2)]
    jobs = []
    for T, n, m in combos:
        for nd in (True, False):
            jobs.append((T, n, m, nd))

    def one(j):
        T, n, m, nd = j
        fl = flags(nd, kk4=True)
        sub = Report(pid, tier, "")
        run_pairs(sub, "pv_%s_%d_%d" % (T, n, nd), drv(T, n, m), fl, opaque=[r"^Kokkos::abort", r"^printf"], note=" [T=%s n=%d m=%d %s]" % (T, n, m, "NDEBUG" if nd else "debug"))
        run_pairs(sub, "pw_%s_%d_%d" % (T, n, nd), drv2(T, n, nd), fl, note=" [T=%s n=%d %s]" % (T, n, "NDEBUG" if nd else "debug"))
        return sub
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(info=30, scalarize=300, repack=100, gather=100, adjdiff=50).items():
        rep.need(r, k)
    rep.assumptions += ["Kokkos::View (3.7 headers; rank() spelled as in Kokkos 4) is analysed as is"]
    return rep.finish("Element addresses of scalarized/repacked views, their extents, gathers and adjacent differences are compared with closed-form index arithmetic over symbolic extents and indices.")
