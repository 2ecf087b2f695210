"""P21: linear interpolation - the interval search and the formula."""
from pairs import *
from team import ENV

PRE = ENV + r'''
#include <vector>
#include <algorithm>
#include "ekat_kernel_assert.hpp"
// the search itself is decided elsewhere: here it is a position in the interval
#define EKAT_UPPER_BOUND_HPP
extern "C" unsigned short x_ub_d(const double*, long, double); extern "C" unsigned short x_ub_f(const float*, long, float);
inline unsigned short ubpos(const double* p, long n, double v){ return x_ub_d(p,n,v); }
inline unsigned short ubpos(const float* p, long n, float v){ return x_ub_f(p,n,v); }
namespace ekat { template<class T> const T* upper_bound(const T* f, const T* l, const T& v){ return f+ubpos(f,l-f,v); } }
namespace std { inline const double* upper_bound(const double* f, const double* l, const double& v){ return f+ubpos(f,l-f,v); }
inline const float* upper_bound(const float* f, const float* l, const float& v){ return f+ubpos(f,l-f,v); } }
#include "ekat_kokkos_meta.hpp"
namespace {
template<class D> using V = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace>;
template<class D> using VU = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
struct VDev2 { using execution_space=VExec; using memory_space=Kokkos::HostSpace; using device_type=VDev2; };
}
namespace ekat {
template<> struct KokkosTypes<VDev2> : KokkosTypes<VDev> {
  using Device=VDev2;
  template<class S> using view_1d=VU<S*>;
};
}
#define private public
#include "ekat_lin_interp.hpp"
#undef private
'''


def drv(T, n, m, sync):
    d = Drv(PRE + "namespace { using T=%s; using P=ekat::Pack<T,%d>; using Q=ekat::Pack<T,%d>; using I=ekat::Pack<int,%d>; using LI=ekat::LinInterp<T,%d,VDev2>; enum{n=%d,m=%d}; }\n" % (T, n, m, n, n, n, m)
            + "static inline LI mk(int* map, u nc, int km1, int km2){ LI li(1,km1,km2); li.m_indx_map=VView2<I>((I*)map,nc,(u)((km2+n-1)/n)); return li; }\n")
    tag = " [T=%s, packs of %d%s]" % (T, n, ", one thread of a team" if sync else "")
    # the loop over interpolation packs: all of them, or the one this thread owns
    loop = "for(int k=0;k<np;++k)" if not sync else "for(int once=0,k=x_mine(0);once<1;++once)"
    uloop = "for(int k=rb;k<re;++k)" if not sync else "for(int once=0,k=rb+x_mine(0);once<1;++once)"
    C = [("int* RS", "map"), ("unsigned short", "nc"), ("int", "km1"), ("unsigned short", "km2"), ("int", "lr")]
    setup = "LI li=mk(map,nc,km1,km2); VTeam t{0,1,lr,(int)nc}; "
    spec = "const int np=((int)km2+n-1)/n; int* row=map+(long)(%s)*(u)np*n; "
    for cn, carg, cpar, cref in (("", "", [], "lr"), ("c", ",(int)col", [("unsigned short", "col")], "col"), ("m", ",-1", [], "lr")):
        for src, mkv, in (("p", "VU<const P*> %s((const P*)%s,%s/n);"), ("q", "VU<const Q*> %s((const Q*)%s,%s/m);"), ("s", "VU<const T*> %s(%s,%s);"), ("w", "VU<P*> %s((P*)%s,%s/n);")):
            if src != "p" and cn:
                continue
            X1 = (mkv % ("x1", "(T*)px1" if src == "w" else "px1", "(unsigned)(l1*n*m)")) + " "
            X2 = (mkv % ("x2", "(T*)px2" if src == "w" else "px2", "(unsigned)(l2*n*m)")) + " "
            ps = C + [("const T* RS", "px1"), ("const T* RS", "px2"), ("unsigned short", "l1"), ("unsigned short", "l2")] + cpar
            for rn, rarg, rpar, lp in (("", "", [], loop), ("r", "rg,", [("int", "rb"), ("int", "re")], uloop), ("v", "rv,", [("int", "rb"), ("int", "re")], "for(int k=rb;k<re;++k)")):
                if src != "p" and rn:
                    continue
                if n == 1 and src in "w" and False:
                    continue
                mkr = "" if not rn else "VRange rg{rb,re,&t}; Kokkos::VLane rv{rb,re}; (void)rg; (void)rv; "
                # "one before the first larger point, but not before the first point", in three spellings
                bodies = [spec % cref + lp + " for(int s=0;s<n;++s){ int i=ubpos(px1,km1,px2[k*n+s]); row[k*n+s]= %s; }" % w for w in ("i>0?i-1:0", "i>0?i-1:i", "i-1>0?i-1:0", "i-1<0?0:i-1")]
                nm = "su%s%s%s" % (cn, src, rn)
                d.e("search", nm, "void", ps + rpar, setup + X1 + X2 + mkr + "li.setup(t,%sx1,x2%s);" % (rarg, carg), bodies[0], "setup%s: interval of every target" % tag)
                for b in bodies[1:]:
                    d.alt(nm, b)
                Y1 = (mkv % ("y1", "(T*)py1" if src == "w" else "py1", "(unsigned)(l1*n*m)")) + " "
                Y2 = (mkv.replace("const ", "") % ("y2", "py2", "(unsigned)(l2*n*m)")) + " "
                # the other end: the next point, or the previous one for the last (j is a position 0..km1-1)
                fs = [spec % cref + "(void)nc; " + lp + " for(int s=0;s<n;++s){ int j=row[k*n+s]; int h= %s; " % w for w in ("j==km1-1 ? j-1 : j+1", "j<km1-1 ? j+1 : j-1", "(unsigned)j<(unsigned)(km1-1) ? j+1 : j-1")]
                form = "py2[k*n+s] = (py1[h]-py1[j])*(px2[k*n+s]-px1[j])/(px1[h]-px1[j])+py1[j]; }"
                d.e("formula", "li%s%s%s" % (cn, src, rn), "void", ps + [("const T* RS", "py1"), ("T* RS", "py2")] + rpar, setup + X1 + X2 + Y1 + Y2 + mkr + "li.lin_interp(t,%sx1,x2,y1,y2%s);" % (rarg, carg), fs[0] + form, "lin_interp%s: the line through the interval's ends" % tag)
                for f in fs[1:]:
                    d.alt("li%s%s%s" % (cn, src, rn), f + form)
    if not sync:
        ps = [("int", "nc"), ("unsigned short", "km1"), ("unsigned short", "km2")]
        mk = "LI li(nc,km1,km2); "
        for nm, t, r, w in (("k1", "li.m_km1", "km1", "number of source points"), ("k2", "li.m_km2", "km2", "number of targets"),
                            ("k1p", "li.km1_pack()", "((int)km1+n-1)/n", "source packs"), ("k2p", "li.km2_pack()", "((int)km2+n-1)/n", "target packs"),
                            ("pol", "li.policy().league_size()", "nc", "one team per column"),
                            ("m0", "(int)li.m_indx_map.extent(0)", "nc", "index map: one row per column"), ("m1", "(int)li.m_indx_map.extent(1)", "((int)km2+n-1)/n", "index map: one entry per target pack")):
            d.e("shape", nm, "int", ps, mk + "return %s;" % t, "return %s;" % r, "LinInterp%s: %s" % (tag, w))
    return d


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of the index map and of every interpolated lane with the definition")
    combos = [("double", 1, 4), ("double", 4, 2), ("float", 8, 16)]
    if tier == "thorough":
        combos += [("double", 8, 1), ("float", 2, 4), ("double", 16, 8)]
    jobs = [(T, n, m, sync) for T, n, m in combos for sync in (0, 1)]

    def one(j):
        T, n, m, sync = j
        sub = Report(pid, tier, "")
        run_pairs(sub, "li_%s_%d_%d" % (T, n, sync), drv(T, n, m, sync), flags(True, kk4=True, defs=["VSYNC"] if sync else []), opaque=["^x_"], pure=["^x_mine$", "^x_ub_", "^x_alloc$"], opts=dict(transparent_trunc=True, nowrap=True))
        return sub
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(search=20, formula=20, shape=12).items():
        rep.need(r, k)
    rep.assumptions += ["at least two source points", "the output does not overlap the inputs", "upper_bound is the standard search (decided by the property on device algorithms)", "index arithmetic does not wrap"]
    return rep.finish("setup and lin_interp are analysed for pack, other-pack and scalar views, default and caller-chosen ranges and columns; the range is symbolic.")
