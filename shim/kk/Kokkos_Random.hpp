#pragma once
extern "C" int kk_draw();                 // any non-negative int
extern "C" int kk_draw_range(int,int);    // [a,b)
extern "C" void kk_pool();
namespace Kokkos {
struct KKGen { int s; int rand() { return kk_draw(); } int rand(const int& n) { return kk_draw_range(0,n); } int rand(const int& a, const int& b) { return kk_draw_range(a,b); }
  unsigned urand() { return (unsigned)kk_draw(); } unsigned urand(const unsigned& n) { return (unsigned)kk_draw_range(0,(int)n); } };
template<class E> struct Random_XorShift64_Pool { using generator_type = KKGen; int k; Random_XorShift64_Pool() { k = 0; } Random_XorShift64_Pool(unsigned long s) { k = 1; (void)s; kk_pool(); }
  generator_type get_state() const { return {0}; } generator_type get_state(int i) const { return {i}; } void free_state(const generator_type&) const {} };
template<class E> struct Random_XorShift1024_Pool : Random_XorShift64_Pool<E> { using Random_XorShift64_Pool<E>::Random_XorShift64_Pool; };
template<class G, class T> struct rand { static T max() { return 2147483647; } static T draw(G& g) { return g.rand(); } static T draw(G& g, const T& n) { return g.rand(n); } static T draw(G& g, const T& a, const T& b) { return g.rand(a,b); } };
}
