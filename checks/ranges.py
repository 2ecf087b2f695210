"""P26: searches in containers, zipped iteration, iteration over the keys of a map, printing of a sequence."""
from pairs import *
from strmodel import STRINGS, T4, parts, lit, char

SU, ZP, KI = "src/core/ekat_std_utils.hpp", "src/core/ekat_zip.hpp", "src/core/ekat_std_map_key_iterator.hpp"
OS = r"^std::basic_ostream<char, std::char_traits<char> ?>& std::operator<< ?<.*>\(std::basic_ostream<char, std::char_traits<char> ?>&, "
OUT = dict(STRINGS)
OUT[OS + "std::__cxx11::basic_string<char"] = {1: T4, "effect": True, "ret": 0, "as": "print", "pre": lambda G, x: [x[0]] + parts(G, x[1:5])}
OUT[OS + r"char const\*\)"] = {"effect": True, "ret": 0, "as": "print", "pre": lambda G, x: [x[0]] + lit(G, x[1])}
OUT[OS + r"char\)"] = {"effect": True, "ret": 0, "as": "print", "pre": lambda G, x: [x[0]] + char(G, x[1])}
OUT[r"^std::ostream::operator<<\("] = {"effect": True, "ret": 0}
OUT[r"^operator<<\(std::ostream"] = {"effect": True, "ret": 0}

COMMON = r'''
#include <cstdlib>
#include <cstddef>
#include <new>
#include <string>
#include <vector>
#include <array>
#include <list>
#include <set>
#include <map>
#include <tuple>
#include <memory>
#define RS __restrict
inline void die(){ std::abort(); }
'''
FIND = COMMON + r'''
#include <ostream>
struct K { int a, b; }; inline bool operator==(const K& x, const K& y) { return x.a==y.a && x.b==y.b; }
struct E1 { int v; }; std::ostream& operator<<(std::ostream&, const E1&);
template<class T> struct It { using iterator_category=std::forward_iterator_tag; using value_type=std::remove_const_t<T>; using difference_type=long; using pointer=T*; using reference=T&;
  T* p; T& operator*() const { return *p; } T* operator->() const { return p; } It& operator++() { ++p; return *this; } It operator++(int) { It o=*this; ++p; return o; } bool operator==(It o) const { return p==o.p; } bool operator!=(It o) const { return p!=o.p; } };
template<class T, int N> struct RA { T a[N>0?N:1]; long at, calls; void erased(const T* p) { at=p-a; ++calls; } using iterator=T*; using const_iterator=const T*; using value_type=T; T* begin() { return a; } T* end() { return a+N; } const T* begin() const { return a; } const T* end() const { return a+N; } const T* cbegin() const { return a; } const T* cend() const { return a+N; } size_t size() const { return N; } bool empty() const { return N==0; } const T& front() const { return a[0]; }
  T* erase(const T* p) { erased(p); return a; } };
template<class T, int N> struct FW { T a[N>0?N:1]; long at, calls; void erased(const T* p) { at=p-a; ++calls; } using iterator=It<T>; using const_iterator=It<const T>; using value_type=T; It<T> begin() { return {a}; } It<T> end() { return {a+N}; } It<const T> begin() const { return {a}; } It<const T> end() const { return {a+N}; } It<const T> cbegin() const { return {a}; } It<const T> cend() const { return {a+N}; } bool empty() const { return N==0; }
  It<T> erase(It<T> p) { erased(p.p); return {a}; } };
#include "ekat_std_utils.hpp"
static_assert(std::is_same_v<decltype(ekat::find(std::declval<std::vector<int>&>(),1)),std::vector<int>::iterator>,"TYPEWIT find: iterator of the container");
static_assert(std::is_same_v<decltype(ekat::find(std::declval<const std::vector<int>&>(),1)),std::vector<int>::const_iterator>,"TYPEWIT find: iterator of the constant container");
static_assert(std::is_same_v<decltype(ekat::find(std::declval<std::list<K>&>(),K{})),std::list<K>::iterator>,"TYPEWIT find: iterator of the container");
static_assert(std::is_same_v<ekat::WeakPtrSet<K>::key_type,std::weak_ptr<K>> && std::is_same_v<ekat::WeakPtrSet<K>::key_compare,ekat::WeakPtrLess<K>>,"TYPEWIT weak: set of weak pointers");
'''


def find():
    d = Drv(FIND)
    for T, V, tag in (("int", "int", "i"), ("int", "double", "m"), ("K", "K", "k"), ("double", "double", "d")):
        for n in (0, 1, 2, 3, 5):
            for c in ("RA", "FW"):
                C = "%s<%s,%d>" % (c, T, n)
                nm = "%s%d%s" % (tag, n, c)
                P = [(C + "* RS", "c"), ("const " + V + "* RS", "v")]
                Q = [("const " + C + "* RS", "c"), ("const " + V + "* RS", "v")]
                ad = "p.p" if c == "FW" else "p"
                hit = "".join("if(c->a[%d]==*v) return c->a+%d; " % (i, i) for i in range(n)) + "return c->a+%d;" % n
                d.e("find", "fnd" + nm, "const void*", P, "auto p=ekat::find(*c,*v); return %s;" % ad, hit, "find in %d elements (%s, %s)" % (n, T, c))
                d.e("find", "cfd" + nm, "const void*", Q, "auto p=ekat::find(*c,*v); return %s;" % ad, hit, "find in %d constant elements (%s, %s)" % (n, T, c))
                d.e("contains", "has" + nm, "bool", Q, "return ekat::contains(*c,*v);", "return " + ("||".join("c->a[%d]==*v" % i for i in range(n)) or "false") + ";", "contains in %d elements (%s, %s)" % (n, T, c))
                d.e("count", "cnt" + nm, "int", Q, "return ekat::count(*c,*v);", "return " + ("+".join("int(c->a[%d]==*v)" % i for i in range(n)) or "0") + ";", "count in %d elements (%s, %s)" % (n, T, c))
                d.e("erase", "era" + nm, "bool", P, "return ekat::erase(*c,*v);", "".join("if(c->a[%d]==*v) { c->at=%d; ++c->calls; return true; } " % (i, i) for i in range(n)) + "return false;", "erase from %d elements (%s, %s)" % (n, T, c))
    W = "const std::weak_ptr<K>* RS"
    d.e("weak", "weak", "bool", [(W, "p"), (W, "q")], "return ekat::WeakPtrLess<K>()(*p,*q);", "return p->owner_before(*q);", "order of weak pointers")
    for T in ("int", "E1", "double"):
        for n in range(5):
            d.e("print", "prt%s%d" % (T, n), "void", [("std::ostream* RS", "o"), (T + "* RS", "a")],
                "alignas(std::vector<%s>) char b[sizeof(std::vector<%s>)]; auto* v=(std::vector<%s>*)b; v->_M_impl._M_start=a; v->_M_impl._M_finish=a+%d; v->_M_impl._M_end_of_storage=a+%d; *o << *v;" % (T, T, T, n, n),
                'const std::string s(" "); ' + " ".join("*o << a[%d];%s" % (i, " *o << s;" if i < n - 1 else "") for i in range(n)), "printing a vector of %d (%s)" % (n, T))
    return d


ZIP = COMMON + r'''
struct K { int a; double b; };
template<class T> struct V { T* b; size_t n; using iterator=T*; using const_iterator=const T*; T* begin() { return b; } T* end() { return b+n; } const T* begin() const { return b; } const T* end() const { return b+n; } const T* cbegin() const { return b; } const T* cend() const { return b+n; } size_t size() const { return n; } };
#include "ekat_zip.hpp"
using std::tuple; template<class A, class B> constexpr bool same=std::is_same_v<A,B>;
template<class T, size_t n> struct F { T* b; using iterator=T*; using const_iterator=const T*; T* begin() { return b; } T* end() { return b+n; } const T* begin() const { return b; } const T* end() const { return b+n; } const T* cbegin() const { return b; } const T* cend() const { return b+n; } static constexpr size_t size() { return n; } };
using VI=V<int>; using VD=V<double>; using VK=V<K>;
template<class... C> using Z=decltype(ekat::zip(std::declval<C>()...));
template<class I> using At=decltype(*std::declval<I&>());
template<class... C> using B=At<decltype(std::declval<const Z<C...>&>().begin())>;
template<class... C> using CB=At<decltype(std::declval<const Z<C...>&>().cbegin())>;
template<class... C> constexpr bool ends=same<decltype(std::declval<const Z<C...>&>().begin()),decltype(std::declval<const Z<C...>&>().end())> && same<decltype(std::declval<const Z<C...>&>().cbegin()),decltype(std::declval<const Z<C...>&>().cend())>;
#define W(n,e) static_assert(e,"TYPEWIT " n ": " #e)
W("deref",(same<B<VI&,VD&>,tuple<int&,double&>>)); W("deref",(same<B<const VI&,VD&>,tuple<const int&,double&>>)); W("deref",(same<B<VK&>,tuple<K&>>));
W("deref",(same<B<std::vector<int>&,std::list<std::string>&>,tuple<int&,std::string&>>)); W("deref",(same<B<int(&)[3],const VD&>,tuple<int&,const double&>>));
W("deref",(same<CB<VI&,VD&>,tuple<const int&,const double&>>)); W("deref",(same<CB<std::vector<int>&,int(&)[2],const VK&>,tuple<const int&,const int&,const K&>>));
W("proxy",(same<B<std::vector<bool>&,VI&>,tuple<std::vector<bool>::reference,int&>>)); W("proxy",(same<CB<std::vector<bool>&>,tuple<std::vector<bool>::const_reference>>));
W("ends",(ends<VI&>)); W("ends",(ends<VI&,const VD&,VK&>)); W("ends",(ends<std::vector<int>&,std::list<std::string>&>)); W("ends",(ends<int(&)[3],std::vector<bool>&>));
W("helper",(same<decltype(ekat::zip_iterator(std::declval<tuple<int*,const double*>>())),ekat::ZipIterator<tuple<int*,const double*>>>));
'''


def zipped():
    d = Drv(ZIP)
    sets = [("1", ["VI"]), ("2", ["VI", "VD"]), ("2c", ["const VI", "VD"]), ("3", ["VD", "VK", "const VI"]), ("4", ["VI", "VI", "VK", "VD"])]
    for nm, cs in sets:
        P = [("%s* RS" % c, "c%d" % i) for i, c in enumerate(cs)]
        E = [("const void** RS", "o%d" % i) for i in range(len(cs))]
        n = len(cs)
        Z = "auto z=ekat::zip(%s); " % ",".join("*c%d" % i for i in range(n))
        if n < 3:
            d.e("size", "sz" + nm, "void", P, Z, "if(%s) die();" % (" || ".join("c%d->n!=c0->n" % i for i in range(1, n)) or "false"), "zip of %s: sizes" % ", ".join(cs))
        fs = ["%sF<%s,%%d>" % ("const " if "const" in c else "", {"I": "int", "D": "double", "K": "K"}[c[-1]]) for c in cs]
        for sz in {(3,) * n, (0,) * n} | {(3,) * i + (k,) + (3,) * (n - i - 1) for i in range(n) for k in (0, 2, 4)}:
            Q = [("%s* RS" % (f % k), "c%d" % i) for i, (f, k) in enumerate(zip(fs, sz))]
            d.e("size", "sf%s_%s" % (nm, "".join(map(str, sz))), "void", Q, Z, "die();" if len(set(sz)) > 1 else "", "zip of %s with sizes %s" % (", ".join(cs), sz))
        for c in ("", "c"):
            for sz in (3, 1):
                Q = [("%s* RS" % (f % sz), "c%d" % i) for i, f in enumerate(fs)]
                for k in range(sz + 1):
                    for e in ("begin", "end") if k == 0 else ("begin",):
                        d.e("visit", "at%s%s%s%d%d" % (e, c, nm, k, sz), "void", Q + E, Z + "auto it=z.%s%s(); %s auto e=*it; %s" % (c, e, "++it; " * k, " ".join("*o%d=&std::get<%d>(e);" % (i, i) for i in range(n))),
                            " ".join("*o%d=c%d->b+%d;" % (i, i, sz if e == "end" else k) for i in range(n)), "zip of %s: %s, %d steps" % (", ".join(cs), e, k))
    A = ["a%d" % i for i in range(3)]
    for k in (0, 1, 2):
        P = [("%s* RS" % t, a) for t, a in zip(("int", "double", "K"), A)]
        adv = lambda m: "auto x=i; " + "++x; " * m
        I = "using I=tuple<int*,double*,K*>; ekat::ZipIterator<I> i(I(a0,a1,a2)); "
        for m in (0, 1, 2, 3):
            d.e("walk", "ne%d%d" % (k, m), "bool", P, I + adv(m) + "ekat::ZipIterator<I> j(I(a0+%d,a1+%d,a2+%d)); return x!=j;" % (k, k, k), "return %s;" % ("true" if k != m else "false"), "zip iterators %d and %d apart" % (m, k))
    # the increment returns the iterator itself, advanced
    d.e("walk", "inc", "bool", [("int* RS", "a0"), ("double* RS", "a1")], "using I=tuple<int*,double*>; ekat::ZipIterator<I> i(I(a0,a1)); auto& r=++i; auto t=*r; return &r==&i && &std::get<0>(t)==a0+1 && &std::get<1>(t)==a1+1;", "return true;", "zip iterator: increment")
    d.e("walk", "help", "bool", [("int* RS", "a0"), ("double* RS", "a1")], "auto i=ekat::zip_iterator(std::make_tuple(a0,a1)); auto t=*i; return &std::get<0>(t)==a0 && &std::get<1>(t)==a1;", "return true;", "zip_iterator")
    # the documented loop
    for n in (0, 1, 2, 4):
        d.e("loop", "loop%d" % n, "void", [("std::array<int,%d>* RS" % n, "a"), ("const std::array<double,%d>* RS" % n, "b")],
            "for(auto [x,y] : ekat::zip(*a,*b)) x=int(y*x);", " ".join("(*a)[%d]=int((*b)[%d]*(*a)[%d]);" % (i, i, i) for i in range(n)), "loop over %d zipped elements" % n)
    d.raw("using CA=int[3]; using CB3=const double[3];")
    d.e("loop", "carr", "void", [("CA* RS", "a"), ("CB3* RS", "b")], "for(auto [x,y] : ekat::zip(*a,*b)) x=int(y*x);", " ".join("(*a)[%d]=int((*b)[%d]*(*a)[%d]);" % (i, i, i) for i in range(3)), "loop over zipped static arrays")
    return d


KEYS = COMMON + r'''
#include "ekat_std_map_key_iterator.hpp"
template<class A, class B> constexpr bool same=std::is_same_v<A,B>;
#define W(n,e) static_assert(e,"TYPEWIT " n ": " #e)
using MI=std::map<int,double>; using MS=std::map<std::string,std::shared_ptr<int>>;
template<class M> using I=ekat::map_key_iterator<M>; template<class M> using CI=ekat::map_key_const_iterator<M>;
template<class X, class Ky> constexpr bool keyonly=same<decltype(*std::declval<X&>()),const Ky&> && same<decltype(std::declval<X&>().operator->()),const Ky*> && same<typename X::reference,const Ky&> && same<typename X::pointer,const Ky*> && same<typename X::value_type,Ky>;
W("key",(keyonly<I<MI>,int>)); W("key",(keyonly<I<MS>,std::string>)); W("ckey",(keyonly<CI<MI>,int>)); W("ckey",(keyonly<CI<MS>,std::string>));
template<class X> constexpr bool tr=same<typename std::iterator_traits<X>::value_type,typename X::value_type> && std::is_base_of_v<std::forward_iterator_tag,typename std::iterator_traits<X>::iterator_category> && std::is_copy_constructible_v<X> && std::is_copy_assignable_v<X>;
W("iter",(tr<I<MI>>)); W("iter",(tr<CI<MI>>)); W("iter",(tr<I<MS>>)); W("iter",(tr<CI<MS>>));
W("conv",(std::is_constructible_v<CI<MI>,MI::iterator> && std::is_constructible_v<CI<MI>,MI::const_iterator> && std::is_constructible_v<I<MI>,MI::iterator> && !std::is_constructible_v<I<MI>,MI::const_iterator>));
'''


def keys():
    d = Drv(KEYS)
    for M, mn in (("MI", "i"), ("MS", "s")):
        for X, xn, mi in (("I", "m", "iterator"), ("CI", "c", "const_iterator")):
            T = "%s<%s>" % (X, M)
            P = [("%s::%s* RS" % (M, mi), "p")]
            nm = mn + xn
            w = "map_key_%siterator<%s>" % ("const_" if X == "CI" else "", M)
            d.e("deref", "st" + nm, "const void*", P, "%s i(*p); return &*i;" % T, "return &(*p)->first;", w + ": *")
            d.e("deref", "ar" + nm, "const void*", P, "%s i(*p); return i.operator->();" % T, "return &(*p)->first;", w + ": ->")
            for op, on in (("++", "i"), ("--", "d")):
                d.e("step", "pre" + on + nm, "bool", P + [("const void** RS", "o")], "%s i(*p); auto& r=%si; *o=&*i; return &r==&i;" % (T, op), "auto q=*p; %sq; *o=&q->first; return true;" % op, w + ": prefix " + op)
                d.e("step", "post" + on + nm, "void", P + [("const void** RS", "o"), ("const void** RS", "u")], "%s i(*p); auto r=i%s; *o=&*i; *u=&*r;" % (T, op), "auto q=*p; %sq; *o=&q->first; *u=&(*p)->first;" % op, w + ": postfix " + op)
            Q = P + [("%s::%s* RS" % (M, mi), "q")]
            d.e("equal", "eq" + nm, "bool", Q, "%s i(*p), j(*q); return i==j;" % T, "return *p==*q;", w + ": ==")
            d.e("equal", "ne" + nm, "bool", Q, "%s i(*p), j(*q); return i!=j;" % T, "return *p!=*q;", w + ": !=")
    return d


def part(x):
    k, tier = x
    rep = Report("P26", tier, "")
    fl = flags(False, mpi=False, kokkos=False) + ["-fno-access-control"]
    if k == "find":
        run_pairs(rep, "find", find(), fl, opaque=[o for o in OUT if "<<" in o], fail=[r"^void ekat::throw_exception<"], pureref=OUT, opts=dict(distinct=True, transparent_trunc=True))
    elif k == "zip":
        run_pairs(rep, "zip", zipped(), fl, fail=[r"^void ekat::throw_exception<"], opaque=[r"^operator new", r"^__cxa"], opts=dict(distinct=True))
    else:
        run_pairs(rep, "keys", keys(), fl, pureref={r"^std::_Rb_tree_increment\(": {"as": "next key"}, r"^std::_Rb_tree_decrement\(": {"as": "previous key"}}, opts=dict(distinct=True))
    return rep


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of searches, zipped iteration and key iteration with their definition; type witnesses")
    for r in pmap(part, [(k, tier) for k in ("find", "zip", "keys")]):
        rep.merge(r)
    for g, n in (("find", 12), ("contains", 12), ("count", 12), ("erase", 12), ("weak", 1), ("print", 6), ("size", 3), ("visit", 6), ("walk", 6), ("loop", 2), ("deref", 4), ("step", 8), ("equal", 4)):
        rep.need(g, n)
    return rep.finish("")
