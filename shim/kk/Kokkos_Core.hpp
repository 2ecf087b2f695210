// A stand-in for Kokkos for reading code about teams without Kokkos' own
// implementation: what EKAT calls is a marked external function, execution
// spaces are empty types, views are pointer and extents.
#pragma once
#define KOKKOS_CORE_HPP
#include <cstdio>
#include <cstddef>
#include <string>
#include <chrono>
#include <algorithm>
#include <type_traits>
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_LAMBDA [=]
extern "C" int kk_concurrency(int space);
extern "C" void* kk_alloc(std::size_t bytes);
extern "C" void kk_barrier();
extern "C" int omp_get_thread_num();
extern "C" int omp_get_max_threads();
extern "C" void kk_single_begin();
extern "C" void kk_single_end();
extern "C" void kk_bcast(void*);
namespace Kokkos {
struct HostSpace { using memory_space = HostSpace; };
struct CudaSpace { using memory_space = CudaSpace; };
struct CudaUVMSpace { using memory_space = CudaUVMSpace; };
template<class E, class M> struct Device { using execution_space = E; using memory_space = M; using device_type = Device; };
#define KK_SPACE(N,MEM,ID) struct N { using execution_space = N; using memory_space = MEM; using device_type = Kokkos::Device<N,MEM>; using size_type = std::size_t; int concurrency() const { return kk_concurrency(ID); } };
KK_SPACE(Serial,HostSpace,1)
KK_SPACE(OpenMP,HostSpace,2)
KK_SPACE(Threads,HostSpace,3)
#ifdef KK_UVM
KK_SPACE(Cuda,CudaUVMSpace,4)
#else
KK_SPACE(Cuda,CudaSpace,4)
#endif
KK_SPACE(HIP,CudaSpace,5)
KK_SPACE(SYCL,CudaSpace,6)
#ifdef EKAT_ENABLE_GPU
using DefaultExecutionSpace = Cuda;
#else
using DefaultExecutionSpace = OpenMP;
#endif
using DefaultHostExecutionSpace = OpenMP;
struct LayoutRight {}; struct LayoutLeft {}; struct LayoutStride {};
enum : unsigned { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
template<unsigned M> struct MemoryTraits { enum : bool { is_unmanaged = M & 1, is_random_access = M & 2, is_atomic = M & 4, is_restrict = M & 8, is_aligned = M & 16 }; };
template<class T, std::size_t N> struct Array { T a[N]; T& operator[](std::size_t i) { return a[i]; } const T& operator[](std::size_t i) const { return a[i]; } };
struct TeamMember {
  int lr, ls, tr, ts;
  int league_rank() const { return lr; } int league_size() const { return ls; } int team_rank() const { return tr; } int team_size() const { return ts; }
  void team_barrier() const { kk_barrier(); }
  template<class T> void team_broadcast(T& v, int) const { kk_bcast(&v); }
};
template<class E, class... P> struct TeamPolicy {
  using execution_space = E; using member_type = TeamMember; using traits = TeamPolicy;
  int l, t; int league_size() const { return l; } int team_size() const { return t; }
  TeamPolicy(int a, int b) : l(a), t(b) {}
};
template<class E, class... P> struct RangePolicy { using execution_space = E; using member_type = int; long b, e; RangePolicy(long x, long y) : b(x), e(y) {} };
template<class DT, class... P> struct View {
  using T = std::remove_pointer_t<DT>;
  using value_type = T;
  T* p; std::size_t n;
  View() { p = nullptr; n = 0; }
  View(const char*, std::size_t k) : p((T*)kk_alloc(k*sizeof(T))), n(k) {}
  View(const std::string&, std::size_t k) : p((T*)kk_alloc(k*sizeof(T))), n(k) {}
  T& operator()(std::ptrdiff_t i) const { return p[i]; }
  T& operator[](std::ptrdiff_t i) const { return p[i]; }
  T* data() const { return p; } std::size_t size() const { return n; } std::size_t extent(int) const { return n; } int extent_int(int) const { return (int)n; }
};
struct SingleOf { const TeamMember& t; };
inline SingleOf PerTeam(const TeamMember& t) { return {t}; }
template<class F> inline void single(const SingleOf&, const F& f) { kk_single_begin(); f(); kk_single_end(); }
template<class F, class V> inline void single(const SingleOf&, const F& f, V& v) { kk_single_begin(); V w; f(w); kk_single_end(); v = w; }
int atomic_compare_exchange(volatile int*, int, int);
int atomic_exchange(volatile int*, int);
bool atomic_compare_exchange_strong(volatile int*, int, int);
int atomic_fetch_add(volatile int*, int);
int atomic_fetch_or(volatile int*, int);
int atomic_fetch_and(volatile int*, int);
void atomic_store(volatile int*, int);
int atomic_load(volatile int*);
void memory_fence();
inline void fence() { memory_fence(); }
inline void fence(const char*) { memory_fence(); }
[[noreturn]] void abort(const char*);
}
