"""P10: reductions accumulate exactly the scalars in [begin,end), each once."""
from pairs import *

PRE = r'''
#include <Kokkos_Core.hpp>
#define RS __restrict
using u = unsigned long;
// a team whose collective reduction is, per definition, the ordered
// accumulation of the body over the range, started from the identity
struct VTeam { int r, s; };
struct VRange { long b, e; };
extern "C" void x_team_reduction();      // a serialized reduction must not depend on the team
namespace Kokkos {
template<class A, class B> inline VRange TeamThreadRange(const VTeam&, const A& b, const B& e){ return {(long)b,(long)e}; }
template<class A> inline VRange TeamThreadRange(const VTeam&, const A& e){ return {0,(long)e}; }
template<class A, class B> inline VRange TeamVectorRange(const VTeam&, const A& b, const B& e){ return {(long)b,(long)e}; }
template<class A> inline VRange TeamVectorRange(const VTeam&, const A& e){ return {0,(long)e}; }
template<class F, class T> inline void parallel_reduce(const VRange& R, const F& f, T& res){
#ifdef VSERIAL
  x_team_reduction();
#endif
  T s = Kokkos::reduction_identity<T>::sum();
  for(long k=R.b;k<R.e;++k) f((int)k,s);
  res = s; }
template<class F, class T> inline void parallel_reduce(const VRange& R, const F& f, const Kokkos::Sum<T>& res){
  T s = Kokkos::reduction_identity<T>::sum();
  for(long k=R.b;k<R.e;++k) f((int)k,s);
  res.reference() = s; }
}
#include "ekat_pack.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_reduction_utils.hpp"
using Kokkos::OpenMP;
'''


def drv(T, N, serial):
    d = Drv(PRE + "namespace { using T=%s; using P=ekat::Pack<T,%d>; using RU=ekat::ReductionUtils<OpenMP,%s>; }\n" % (T, max(N, 1), "true" if serial else "false"))
    sr = "serialized" if serial else "team"
    if N == 0:
        ps = [("const T* RS", "p"), ("int", "b"), ("int", "e")]
        z = "T s=0; " if T != "double" else "T s=Kokkos::reduction_identity<T>::sum(); "
        for nm, lam in (("copy", "[=](int k)->T { return p[k]; }"), ("ref", "[=](int k)->const T& { return p[k]; }")):
            d.e("scalar", "vr" + nm, "T", ps, "VTeam t{0,1}; return RU::view_reduction(t,b,e,%s);" % lam, z + "for(int k=b;k<e;++k) s+=p[k]; return s;", "%s view_reduction of a scalar view" % sr)
        d.e("scalar", "pr", "T", ps, "VTeam t{0,1}; return RU::parallel_reduce<T>(t,b,e,[=](int k,T& a){ a+=p[k]*p[k]; });", z + "for(int k=b;k<e;++k) s+=p[k]*p[k]; return s;", "%s parallel_reduce" % sr)
        d.e("scalar", "view", "T", [("T* RS", "p"), ("unsigned short", "n"), ("int", "b"), ("int", "e")], "VTeam t{0,1}; Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryTraits<Kokkos::Unmanaged>> v(p,n); return RU::view_reduction(t,b,e,v);", z + "for(int k=b;k<e;++k) s+=p[k]; return s;", "%s view_reduction of a Kokkos view" % sr)
        return d
    if serial:
        ps = [("const P* RS", "const T* RS", "p"), ("unsigned short", "b"), ("unsigned short", "e")]
        z = "T s=Kokkos::reduction_identity<T>::sum(); "
        d.e("packed", "v", "T", ps, "VTeam t{0,1}; return RU::view_reduction(t,(int)b,(int)e,[=](int k)->P { return p[k]; });", z + "for(int k=b;k<e;++k) s+=p[k]; return s;", "serialized view_reduction of packs of %d: left to right over the scalars" % N)
        d.alt("v", z + "for(int k=b;k<e;++k) s+=p[(k/%d)*%d+k%%%d]; return s;" % (N, N, N))
        return d
    # every position of the bounds inside their packs; the pack index of the
    # first bound and the distance to the second stay symbolic
    for br in range(N):
        for er in range(N):
            for dist, q in (("0", "q"), ("1", "q"), ("s", "0"), ("s", "3")):
                if dist == "0" and er < br:
                    continue
                b, e = "%d*(int)%s+%d" % (N, q, br), {"0": "%d*(int)q+%d" % (N, er), "1": "%d*((int)q+1)+%d" % (N, er), "s": "%d*(%s+2+(int)m)+%d" % (N, q, er)}[dist]
                ps = [("const P* RS", "const T* RS", "p"), ("unsigned short", "m" if dist == "s" else "q")]
                t = "VTeam t{0,1}; return RU::view_reduction(t,%s,%s,[=](int k)->P { return p[k]; });" % (b, e)
                nm = "b%de%d%s%s" % (br, er, dist, q)
                what = "team view_reduction of packs of %d, begin %% n = %d, end %% n = %d, %s packs apart, first pack %s" % (N, br, er, {"s": "two or more"}.get(dist, dist), {"q": "any"}.get(q, q))
                if dist == "0":
                    d.e("packed", nm, "T", ps, t, "const T* c=p+%d*q; return %s;" % (N, "+".join("c[%d]" % l for l in range(br, er)) or "0"), what)
                elif dist == "1":
                    d.e("packed", nm, "T", ps, t, "const T* c=p+%d*q; return %s;" % (N, "+".join("c[%d]" % l for l in range(br, N + er))), what)
                else:
                    first = 1 if br else 0
                    Q = "enum { Q=%s }; " % q
                    head = "+".join("c[%d]" % l for l in range(br, N)) if br else "0"
                    tail = "".join("+f[%d]" % l for l in range(er))
                    r1 = Q + "const T* c=p+%d*(u)Q; const T* f=c+%d*(2+(u)m); T s[%d]={}; for(u k=%d;k<2+(u)m;++k) for(int l=0;l<%d;++l) s[l]+=c[%d*k+l]; return %s+%s%s;" % (N, N, N, first, N, N, head, "+".join("s[%d]" % l for l in range(N)), tail)
                    d.e("packed", nm, "T", ps, t, r1, what)
                    d.alt(nm, Q + "P s(0); for(u k=%d;k<2+(u)m;++k) s+=((const P*)(p+%d*(u)Q))[k]; const T* c=p+%d*(u)Q; const T* f=c+%d*(2+(u)m); T r=0; for(int l=0;l<%d;++l) r+=s[l]; return %s+r%s;" % (first, N, N, N, N, head, tail))
                    d.alt(nm, Q + "const T* c=p+%d*(u)Q; const T* f=c+%d*(2+(u)m); T s=0; for(u k=%d;k<2+(u)m;++k) s+=%s; return %s+s%s;" % (N, N, first, "+".join("c[%d*k+%d]" % (N, l) for l in range(N)), head, tail))
                    d.alt(nm, Q + "const T* c=p+%d*(u)Q; const T* f=c+%d*(2+(u)m); T s=%s; for(u k=%d;k<2+(u)m;++k) s+=%s; return s%s;" % (N, N, head, first, "+".join("c[%d*k+%d]" % (N, l) for l in range(N)), tail))
    return d


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality with the sum of the scalars in the range")
    jobs = [("long", 0, 0), ("long", 0, 1), ("double", 0, 1), ("double", 0, 0)]
    jobs += [("long", N, 0) for N in ((1, 2, 4, 8) if tier == "quick" else (1, 2, 4, 8, 16))]
    jobs += [(T, N, 1) for T in ("double", "long") for N in ((1, 4) if tier == "quick" else (1, 2, 4, 8, 16))]

    def one(j):
        T, N, s = j
        sub = Report(pid, tier, "")
        run_pairs(sub, "rd_%s_%d_%d" % j, drv(T, N, s), flags(True, kk4=True, defs=["VSERIAL"] if s else []), note=" [%s]" % T, opaque=["^x_"], opts=dict(transparent_trunc=True, nowrap=True, ult_as_slt=True))
        return sub
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(scalar=12, packed=60).items():
        rep.need(r, k)
    rep.assumptions += ["the team reduction of the back end accumulates the body over the range it is given, from the identity", "integer sums stand for sums in the chosen precision: team reductions may associate freely", "begin <= end, both >= 0"]
    return rep.finish("For packed inputs every position of the two bounds inside their packs is analysed, with the pack index and the distance symbolic.")
