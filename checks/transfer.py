"""P06: layout transposes and host<->device pack transfers."""
from pairs import *

PRE = r'''
#include <Kokkos_Core.hpp>
#include <cstdio>
#include <vector>
#define RS __restrict
using u = unsigned long;
template<class D> using VU = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
// the device is a memory space of its own: mirrors are separate buffers and
// only deep_copy moves data between them
extern "C" void* x_mirror(const void*) noexcept;
extern "C" void x_deep_copy(void* dst, const void* src) noexcept;
extern "C" void* x_alloc(u) noexcept;
namespace Kokkos {
template<class D> VU<D> create_mirror_view(const VU<D>& v) { return VU<D>((typename VU<D>::pointer_type)x_mirror(v.data()), v.layout()); }
template<class D> void deep_copy(const VU<D>& d, const VU<D>& s) { x_deep_copy(d.data(), s.data()); }
}
// a view that allocates: the allocation is a marked call
using VAL=Kokkos::LayoutRight; using VAS=Kokkos::HostSpace; using VAT=Kokkos::MemoryTraits<Kokkos::Restrict|Kokkos::Aligned|Kokkos::RandomAccess>;
namespace Kokkos {
template<class D> class View<D,VAL,VAS,VAT> {
public:
  static constexpr int rank=std::rank<D>::value+(std::is_pointer_v<D>?1:0)+(std::is_pointer_v<std::remove_pointer_t<D>>?1:0)+(std::is_pointer_v<std::remove_pointer_t<std::remove_pointer_t<D>>>?1:0);
  using value_type=std::remove_pointer_t<std::remove_pointer_t<std::remove_pointer_t<D>>>;
  using non_const_value_type=std::remove_const_t<value_type>; using const_value_type=const value_type;
  using array_layout=VAL; using memory_space=VAS; using memory_traits=VAT;
  value_type* p; u e[3];
  View(){ p=nullptr; e[0]=e[1]=e[2]=0; }
  template<class L> View(const L&, u a, u b=1, u c=1){ p=(value_type*)x_alloc(a*b*c*sizeof(value_type)); e[0]=a; e[1]=b; e[2]=c; }
  View(value_type* q, const u* f){ p=q; e[0]=f[0]; e[1]=f[1]; e[2]=f[2]; }
  value_type* data() const { return p; } u extent(int i) const { return e[i]; }
  value_type& operator()(u i) const { return p[i]; }
  value_type& operator()(u i, u j) const { return p[i*e[1]+j]; }
  value_type& operator()(u i, u j, u k) const { return p[(i*e[1]+j)*e[2]+k]; }
};
template<class D> View<D,VAL,VAS,VAT> create_mirror_view(const View<D,VAL,VAS,VAT>& v){ return View<D,VAL,VAS,VAT>((typename View<D,VAL,VAS,VAT>::value_type*)x_mirror(v.p),v.e); }
template<class D> void deep_copy(const View<D,VAL,VAS,VAT>& d, const View<D,VAL,VAS,VAT>& s){ x_deep_copy(d.p,s.p); }
}
template<class D> using VA=Kokkos::View<D,VAL,VAS,VAT>;
#include "ekat_pack.hpp"
#include "ekat_math_utils.hpp"
#include "ekat_pack_kokkos.hpp"
#include "ekat_view_utils.hpp"
'''


def drv_transpose(T):
    d = Drv(PRE + "namespace { using T=%s; }\n" % T)
    A = [("const T* RS", "s"), ("T* RS", "t")]
    for dr in ("c2f", "f2c"):
        D_ = "ekat::TransposeDirection::" + dr
        p2 = A + [("int", "ni"), ("int", "nk")]
        w = "for(int i=0;i<ni;++i) for(int k=0;k<nk;++k) " + ("t[ni*k+i]=s[nk*i+k];" if dr == "c2f" else "t[nk*i+k]=s[ni*k+i];")
        d.e("transpose", "tr2s_" + dr, "void", p2, "ekat::transpose<%s>(s,t,ni,nk);" % D_, w, "transpose<%s> 2d" % dr)
        d.e("transpose", "tr2_" + dr, "void", p2, "ekat::transpose(s,t,ni,nk,%s);" % D_, w, "transpose 2d with runtime direction " + dr)
        p3 = A + [("int", "ni"), ("int", "nk"), ("int", "nj")]
        c, f = "(nk*nj)*i+nj*k+j", "(ni*nk)*j+ni*k+i"
        w = "for(int i=0;i<ni;++i) for(int k=0;k<nk;++k) for(int j=0;j<nj;++j) " + ("t[%s]=s[%s];" % (f, c) if dr == "c2f" else "t[%s]=s[%s];" % (c, f))
        d.e("transpose", "tr3s_" + dr, "void", p3, "ekat::transpose<%s>(s,t,ni,nk,nj);" % D_, w, "transpose<%s> 3d" % dr)
        d.e("transpose", "tr3_" + dr, "void", p3, "ekat::transpose(s,t,ni,nk,nj,%s);" % D_, w, "transpose 3d with runtime direction " + dr)
    return d


def drv_xfer(T, n, N):
    """N: pack length; 0: plain scalars"""
    P = "ekat::Pack<T,%d>" % N if N else "T"
    d = Drv(PRE + "namespace { using T=%s; using P=%s; enum{n=%d}; }\n" % (T, P, N or 1))
    dims = ["d1", "d2", "d3"]
    for r in (1, 2, 3):
        # two arrays of different sizes: every array must use its own sizes
        for two in (0, 1):
            na = 2 if two else 1
            par = []
            for a in range(na):
                par += [("T* RS", "T* RS", "h%d" % a), ("P* RS", "T* RS", "p%d" % a)]
            par += [("unsigned short", "%s_%d" % (dims[k], a)) for a in range(na) for k in range(r)]
            for uniform in ((0, 1) if not two else (0,)):
                def views(cst):
                    ext = []
                    for a in range(na):
                        e = ["(u)%s_%d" % (dims[k], a) for k in range(r)]
                        if N:
                            e[-1] = "(%s+n-1)/n" % e[-1]
                        ext.append("VU<%sP%s>(p%d,%s)" % (cst, "*" * r, a, ",".join(e)))
                    return "{%s}" % ", ".join(ext)
                sz = ", ".join("std::vector<int>{%s}" % ", ".join("(int)%s_%d" % (dims[k], a) for a in range(na)) for k in range(r)) if not uniform else \
                    ", ".join("(size_t)%s_0" % dims[k] for k in range(r))

                def spec(a, buf, back, base="h%d"):
                    D = ["(u)%s_%d" % (dims[k], a) for k in range(r)]
                    np_ = "((%s+n-1)/n)" % D[-1] if N else D[-1]
                    s = ""
                    iv = ["i%d" % k for k in range(r)]
                    for k in range(r - 1):
                        s += "for(u %s=0;%s<%s;++%s) " % (iv[k], iv[k], D[k], iv[k])
                    s += "for(u q=0;q<%s;++q) for(int l=0;l<n;++l) if(q*n+l<%s) " % (np_, D[-1])
                    hi, di = "0", "0"
                    for k in range(r - 1):
                        hi = "((%s)*%s+%s)" % (hi, D[k], iv[k])
                        di = "((%s)*%s+%s)" % (di, D[k], iv[k])
                    hi = "((%s)*%s+q*n+l)" % (hi, D[-1])
                    di = "((%s)*%s+q)*n+l" % (di, np_)
                    h = base % a if "%" in base else base
                    if back:
                        return "{ %s %s[%s]=%s[%s]; }" % (s, h, hi, buf, di)
                    return "{ %s %s[%s]=%s[%s]; }" % (s, buf, di, h, hi)
                tg = "%d%s%s" % (r, "u" if uniform else "", "m" if two else "")
                trs = [""] if r == 1 else ["", ",true,ekat::TransposeDirection::c2f", ",true,ekat::TransposeDirection::f2c"]
                for ti, tr in enumerate(trs):
                    if two and tr:
                        continue
                    what = " of %d rank-%d array(s)%s%s" % (na, r, " (uniform sizes)" if uniform else "", " transposed " + tr[-3:] if tr else "")
                    tdims = ",".join("(int)%s_0" % dims[k] for k in range(r))
                    hv = "std::vector<const T*> hv{%s};" % ", ".join("h%d" % a for a in range(na))
                    hvm = "std::vector<T*> hv{%s};" % ", ".join("h%d" % a for a in range(na))
                    tbuf = "T* tb=(T*)operator new(%s*sizeof(T)); " % "*".join("(u)%s_0" % dims[k] for k in range(r))
                    # const vector of views: filled in place
                    body = hv + "const std::vector<VU<P%s>> vv%s; ekat::host_to_device(hv,%s,vv%s);" % ("*" * r, views(""), sz, tr)
                    ref = ""
                    for a in range(na):
                        ref += "T* m%d=(T*)x_mirror(p%d); " % (a, a)
                        if tr:
                            ref += tbuf + "ekat::transpose(h0,tb,%s,%s); " % (tdims, tr.split(",")[-1]) + spec(a, "m%d" % a, False, "tb")
                        else:
                            ref += spec(a, "m%d" % a, False)
                        ref += "x_deep_copy(p%d,m%d);" % (a, a)
                    d.e("h2d", "h2d%s_%d" % (tg, ti), "void", par, body, ref, "host_to_device" + what)
                    # vector of views: allocated by the function
                    np_ = lambda a: "((u)%s_%d+n-1)/n" % (dims[r - 1], a)
                    body = hv + "std::vector<VA<P%s>> vv(%d); ekat::host_to_device(hv,%s,vv%s); %s" % ("*" * r, na, sz, tr, "".join("o[%d]=vv[%d].p; " % (a, a) + "".join("x[%d]=vv[%d].e[%d]; " % (3 * a + k, a, k) for k in range(r)) for a in range(na)))
                    aref = ""
                    for a in range(na):
                        lead = "".join("(u)%s_%d*" % (dims[k], a) for k in range(r - 1))
                        aref += "T* q%d=(T*)x_alloc(%s(%s)*sizeof(P)); T* m%d=(T*)x_mirror(q%d); " % (a, lead, np_(a), a, a)
                        if tr:
                            aref += tbuf + "ekat::transpose(h0,tb,%s,%s); " % (tdims, tr.split(",")[-1]) + spec(a, "m%d" % a, False, "tb")
                        else:
                            aref += spec(a, "m%d" % a, False)
                        aref += "x_deep_copy(q%d,m%d); o[%d]=(P*)q%d; " % (a, a, a, a)
                        aref += "".join("x[%d]=%s; " % (3 * a + k, np_(a) if k == r - 1 else "(u)%s_%d" % (dims[k], a)) for k in range(r))
                    if not (T == "bool" and r == 1):       # the compiler folds the byte count into a mask
                        d.e("alloc", "h2a%s_%d" % (tg, ti), "void", par + [("P** RS", "o"), ("u* RS", "x")], body, aref, "host_to_device into views it allocates," + what)
                    for c in ("", "const "):
                        body = hvm + "const std::vector<VU<%sP%s>> vv%s; ekat::device_to_host(hv,%s,vv%s);" % (c, "*" * r, views(c), sz, tr)
                        if c or (not N and r == 1):
                            continue
                        ref = ""
                        for a in range(na):
                            ref += "T* m%d=(T*)x_mirror(p%d); x_deep_copy(m%d,p%d); " % (a, a, a, a)
                            if tr:
                                ref += tbuf + spec(a, "m%d" % a, True, "tb") + "ekat::transpose((const T*)tb,h0,%s,%s); " % (tdims, tr.split(",")[-1])
                            else:
                                ref += spec(a, "m%d" % a, True)
                        d.e("d2h", "d2h%s_%d" % (tg, ti), "void", par, body, ref, "device_to_host" + what)
    return d


def check(pid, tier):
    rep = Report(pid, tier, "set-of-stores equality (loop nests as comprehensions over symbolic extents) and call-sequence equality with closed-form index maps")
    jobs = [("tr", T, 0, 0) for T in ("double", "int")] + [("x", T, N, 0) for T, N in (("double", 4), ("float", 2), ("bool", 2), ("double", 0))]
    if tier == "thorough":
        jobs += [("x", T, N, 0) for T, N in (("double", 8), ("int", 16), ("int", 0))]

    def one(j):
        kind, T, N, _ = j
        sub = Report(pid, tier, "")
        fl = flags(True, kk4=True)
        if kind == "tr":
            run_pairs(sub, "tr_" + T, drv_transpose(T), fl, note=" [%s]" % T, sets=True, opts=dict(transparent_trunc=True, nowrap=True))
        else:
            opq = [r"^x_", r"^(void )?ekat::transpose<", r"^operator new", r"^operator delete", r"^std::__throw"]
            run_pairs(sub, "xf_%s_%d" % (T, N), drv_xfer(T, N, N), fl, opaque=opq, note=" [%s, n=%d]" % (T, N), sets=True, opts=dict(ult_as_slt=True, transparent_trunc=True, nowrap=True, pos=True))
        return sub
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(transpose=8, h2d=10, d2h=10, alloc=100).items():
        rep.need(r, k)
    rep.assumptions += ["extents fit the index types (no wrap-around)", "the device is modelled as a separate memory space: mirror buffers are distinct and only deep_copy moves data"]
    return rep.finish("value-graph comparison of every transfer overload with the definition: which source element every destination element receives, over all elements (set of stores), for each rank, element type and layout")
