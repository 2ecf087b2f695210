"""A team environment for analysing team-parallel code.

Two readings of the same source:
  functional (VSYNC undefined): a team of one thread; barriers do nothing, a
    `single` runs its body, a team loop runs every index.  Gives what an
    operation does.
  sync (VSYNC defined): one thread of a team of any size; barriers are marked
    calls, `single` bodies are guarded by rank 0, a team loop runs its body for
    one index x_mine() owned by this thread.  Gives what each thread may touch
    between two barriers.
"""
ENV = r'''
#include <Kokkos_Core.hpp>
#include <cstdio>
#include <cstring>
#define RS __restrict
using u = unsigned long;
extern "C" void x_barrier(void*, void*, void*, void*);  // other threads may have changed these arrays
extern "C" int x_mine(int) ;
extern "C" int x_concurrency() ;
extern "C" void* x_alloc(int kind, u bytes);
struct VExec { using execution_space=VExec; using memory_space=Kokkos::HostSpace; using size_type=u; using array_layout=Kokkos::LayoutRight;
  int concurrency() const { return x_concurrency(); } };
struct VTeam {
  int r, s, lr, ls;
  void *shared[4] = {};
  int team_rank() const { return r; }
  int team_size() const { return s; }
  int league_rank() const { return lr; }
  int league_size() const { return ls; }
#ifdef VSYNC
  void team_barrier() const { x_barrier(shared[0],shared[1],shared[2],shared[3]); }
#else
  void team_barrier() const {}
#endif
};
struct VPolicy { int ls, ts; using member_type=VTeam; VPolicy(int l, int t):ls(l),ts(t){} int league_size() const { return ls; } int team_size() const { return ts; } };
struct VSingle { const VTeam& t; };
struct VRange { long b, e; const VTeam* t; };
namespace Kokkos {
inline VSingle PerTeam(const VTeam& t){ return {t}; }
struct VPT { const VTeam& t; };
inline VPT PerThread(const VTeam& t){ return {t}; }
template<class F> inline void single(const VPT&, const F& f){ f(); }
#ifdef VSYNC
template<class F> inline void single(const VSingle& s, const F& f){ if(s.t.r==0) f(); }
template<class F, class V> inline void single(const VSingle& s, const F& f, V& v){ V w; if(s.t.r==0) f(w); s.t.team_barrier(); v=w; }
#else
template<class F> inline void single(const VSingle& s, const F& f){ f(); }
template<class F, class V> inline void single(const VSingle& s, const F& f, V& v){ f(v); }
#endif
template<class A, class B> inline VRange TeamThreadRange(const VTeam& t, const A& b, const B& e){ return {(long)b,(long)e,&t}; }
template<class A> inline VRange TeamThreadRange(const VTeam& t, const A& e){ return {0,(long)e,&t}; }
template<class A, class B> inline VRange TeamVectorRange(const VTeam& t, const A& b, const B& e){ return {(long)b,(long)e,&t}; }
template<class A> inline VRange TeamVectorRange(const VTeam& t, const A& e){ return {0,(long)e,&t}; }
struct VLane { long b, e; };
template<class A, class B> inline VLane ThreadVectorRange(const VTeam& t, const A& b, const B& e){ return {(long)b,(long)e}; }
template<class A> inline VLane ThreadVectorRange(const VTeam& t, const A& e){ return {0,(long)e}; }
template<class F> inline void parallel_for(const VLane& R, const F& f){ for(long k=R.b;k<R.e;++k) f((int)k); }
#ifdef VSYNC
template<class F> inline void parallel_for(const VRange& R, const F& f){ f((int)R.b+x_mine(0)); }
#else
template<class F> inline void parallel_for(const VRange& R, const F& f){ for(long k=R.b;k<R.e;++k) f((int)k); }
#endif
template<class F> inline void parallel_for(const char*, const VPolicy& P, const F& f){ for(int l=0;l<P.ls;++l) f(VTeam{0,1,l,P.ls}); }
template<class F> inline void parallel_for(const VPolicy& P, const F& f){ for(int l=0;l<P.ls;++l) f(VTeam{0,1,l,P.ls}); }
}
// views whose allocation and filling are marked calls
template<class S> struct VView1 {
  using traits = typename Kokkos::View<S*,Kokkos::LayoutRight,Kokkos::HostSpace>::traits;
  using value_type = S; static constexpr int rank=1;
  S* p; u n0;
  VView1(){ p=nullptr; n0=0; }
  VView1(S* q, u a):p(q),n0(a){}
  VView1(const char*, u a):p((S*)x_alloc(0,a*sizeof(S))),n0(a){}
  template<class L, class=std::enable_if_t<!std::is_convertible<L,const void*>::value>> VView1(const L&, u a):p((S*)x_alloc(1,a*sizeof(S))),n0(a){}
  S& operator()(long i) const { return p[i]; } S& operator[](long i) const { return p[i]; }
  S* data() const { return p; } u size() const { return n0; } u extent(int) const { return n0; } int extent_int(int) const { return n0; } };
template<class S> struct VView2 { using value_type=S;
  S* p; u n0, n1;
  VView2(){ p=nullptr; n0=n1=0; }
  VView2(S* q, u a, u b):p(q),n0(a),n1(b){}
  VView2(const char*, u a, u b):p((S*)x_alloc(0,a*b*sizeof(S))),n0(a),n1(b){}
  template<class L, class=std::enable_if_t<!std::is_convertible<L,const void*>::value>> VView2(const L&, u a, u b):p((S*)x_alloc(1,a*b*sizeof(S))),n0(a),n1(b){}
  S& operator()(long i, long j) const { return p[i*n1+j]; }
  S* data() const { return p; } u size() const { return n0*n1; } u extent(int i) const { return i==0?n0:n1; } };
template<class S> struct VView3 { using value_type=S;
  S* p; u n0, n1, n2;
  VView3(){ p=nullptr; n0=n1=n2=0; }
  VView3(S* q, u a, u b, u c):p(q),n0(a),n1(b),n2(c){}
  VView3(const char*, u a, u b, u c):p((S*)x_alloc(0,a*b*c*sizeof(S))),n0(a),n1(b),n2(c){}
  S& operator()(long i, long j, long k) const { return p[(i*n1+j)*n2+k]; }
  S* data() const { return p; } u size() const { return n0*n1*n2; } };
namespace Kokkos {
template<class S, class V> inline void deep_copy(const VView1<S>& v, const V& x){ for(u i=0;i<v.size();++i) v.p[i]=(S)x; }
template<class S, class V> inline void deep_copy(const VView2<S>& v, const V& x){ for(u i=0;i<v.size();++i) v.p[i]=(S)x; }
template<class S, class V> inline void deep_copy(const VView3<S>& v, const V& x){ for(u i=0;i<v.size();++i) v.p[i]=(S)x; }
}
// the label of an uninitialised allocation does not matter
namespace Kokkos { struct VNoInit { VNoInit(const char*){} }; }
#define ViewAllocateWithoutInitializing VNoInit
struct VDev { using execution_space=VExec; using memory_space=Kokkos::HostSpace; using device_type=VDev; };
#include "ekat_kokkos_types.hpp"
namespace ekat {
template<> struct KokkosTypes<VDev> {
  using Device=VDev; using Layout=Kokkos::LayoutRight; using MemSpace=Kokkos::HostSpace; using ExeSpace=VExec; using TeamPolicy=VPolicy; using MemberType=VTeam;
  template<class S> using view_1d=VView1<S>;
  template<class S> using view_2d=VView2<S>;
  template<class S> using view_3d=VView3<S>;
  template<class S,int N> using view_1d_ptr_array=Kokkos::Array<Unmanaged<view_1d<S>>*,N>;
  template<class S,int N> using view_1d_ptr_carray=Kokkos::Array<const Unmanaged<view_1d<S>>*,N>;
};
template<class E> struct TeamPolicyFactory;
template<> struct TeamPolicyFactory<VExec> { using TeamPolicy=VPolicy;
  static VPolicy get_default_team_policy(int ni, int){ return VPolicy(ni,1); }
  static VPolicy get_team_policy_force_team_size(int ni, int t){ return VPolicy(ni,t); } };
}
'''
