"""P23: parameter lists. The maps are functions from keys to slots (shim/absmap), std::any is a tag and a value."""
from pairs import *

ERR = [r"^std::__throw", r"^std::__cxx11::\w+<char, std::char_traits<char>, std::allocator<char>>::", r"^std::(basic_)?(ostream|ios)", r"^std::operator(<<|>>|\+)", r"ostream.*operator<<", r"^operator new", r"^operator delete", r"^__cxa", r"^std::type_info"]
FAIL = [r"^void ekat::throw_exception<"]
PRE = r'''
#include <cstdlib>
#include <string>
#include <any>
#include <map>
#include <vector>
#include <iostream>
#define RS __restrict
#include "ekat_parameter_list.hpp"
#include "ekat_parameter_list.cpp"
using S=std::string; using PL=ekat::ParameterList; using C=const PL; using E=PL::EmptySeq;
struct Big { double a,b,c; }; using VI=std::vector<int>; using VS=std::vector<std::string>; using VD=std::vector<double>; using VC=std::vector<char>;
namespace {
using PSlot=std::x_slot_t<S,std::any>; using LSlot=std::x_slot_t<S,PL>;
inline PSlot* par(const PL* p, const S* n){ return p->m_params.x_at(std::x_id(*n)); }
inline LSlot* sub(const PL* p, const S* n){ return p->m_sublists.x_at(std::x_id(*n)); }
// the arbitrary key of iterations is the key of its own slot
inline void prep(const PL* p){ auto* a=p->m_params.x_at(x_any()); *(long*)&a->kv.first=x_any(); auto* b=p->m_sublists.x_at(x_any()); *(long*)&b->kv.first=x_any(); }
inline PSlot* par(const PL* p){ return p->m_params.x_at(x_any()); }
inline LSlot* sub(const PL* p){ return p->m_sublists.x_at(x_any()); }
inline void die(){ std::abort(); }
template<class T> inline void stash(std::any& a, const T& v){ a.x_put<T>(v); }
inline void mark(PSlot* s, long id){ if(!s->has) { s->has=1; *(long*)&s->kv.first=id; } }
inline void mark(LSlot* s, long id){ if(!s->has) { s->has=1; *(long*)&s->kv.first=id; } }
inline void cp(PL& a, const PL& b){ a=b; }
inline void imp(PL& a, const PL& b){ a.import(b); }
inline void imp(PSlot* a, const PSlot* b){ if(b->has) { mark(a,x_any()); a->kv.second=b->kv.second; } }
}
'''


def drv():
    d = Drv(PRE)
    P, CP, N = ("PL* RS", "p"), ("const PL* RS", "p"), ("const S* RS", "n")
    d.e("query", "isp", "bool", [CP, N], "return p->isParameter(*n);", "return par(p,n)->has!=0;", "isParameter")
    d.e("query", "iss", "bool", [CP, N], "return p->isSublist(*n);", "return sub(p,n)->has!=0;", "isSublist")
    for T, nm in (("int", "i"), ("double", "d"), ("bool", "b"), ("char", "c"), ("Big", "g"), ("VI", "v"), ("VS", "w"), ("VD", "x"), ("S", "s"), ("E", "e")):
        vec = T[0] == "V"
        ty = "if(!s->has) die(); auto& a=s->kv.second; "
        d.e("query", "ist" + nm, "bool", [CP, N], "return p->isType<%s>(*n);" % T, "auto* s=par(p,n); " + ty + "return a.ti==&typeid(%s);" % T, "isType<%s>" % T)
        emp = "if(a.ti==&typeid(E)) { a.x_wipe(&typeid(%s)); ::new((void*)a.buf) %s(); } " % (T, T) if vec else ""
        chk = "if(a.ti!=&typeid(%s)) die(); return (%s*)a.buf;" % (T, T)
        d.e("get", "get" + nm, T + "*", [P, N], "return &p->get<%s>(*n);" % T, "auto* s=par(p,n); " + ty + emp + chk, "get<%s>" % T)
        if not vec:
            d.e("get", "cget" + nm, "const %s*" % T, [CP, N], "return &p->get<%s>(*n);" % T, "auto* s=par(p,n); " + ty + chk, "const get<%s>" % T)
        else:
            d.e("get", "cget" + nm, "bool", [CP, N], "return &p->get<%s>(*n)==(const %s*)par(p,n)->kv.second.buf;" % (T, T), "auto* s=par(p,n); if(!s->has) die(); auto& a=s->kv.second; if(a.ti!=&typeid(%s) && a.ti!=&typeid(E)) die(); return a.ti!=&typeid(E);" % T, "const get<%s>" % T)
        if T in ("int", "double", "bool", "char", "Big", "S"):
            d.e("set", "set" + nm, "void", [P, N, ("const %s* RS" % T, "v")], "p->set<%s>(*n,*v);" % T, "auto* s=par(p,n); mark(s,std::x_id(*n)); stash(s->kv.second,*v);", "set<%s>" % T)
            d.e("get", "def" + nm, T + "*", [P, N, ("const %s* RS" % T, "v")], "return &p->get<%s>(*n,*v);" % T, "auto* s=par(p,n); auto& a=s->kv.second; if(!s->has) { mark(s,std::x_id(*n)); stash(a,*v); } " + chk, "get<%s> with a default" % T)
    d.e("sublist", "csl", "const PL*", [CP, N], "return &p->sublist(*n);", "auto* s=sub(p,n); if(!s->has) x_nokey(&p->m_sublists); return &s->kv.second;", "const sublist")
    M = ("const S* RS", "m")
    d.e("whole", "cc", "void", [P, ("const PL* RS", "s")], "prep(s); ::new((void*)p) PL(*s);", "prep(s); ::new((void*)p) PL(); p->m_name=s->m_name; imp(par(p),par(s)); if(sub(s)->has) { mark(sub(p),x_any()); cp(sub(p)->kv.second,sub(s)->kv.second); }", "copy constructor")
    d.e("whole", "as", "PL*", [P, ("const PL* RS", "s")], "prep(s); prep(p); return &(*p=*s);", "prep(s); prep(p); p->m_name=s->m_name; par(p)->has=0; sub(p)->has=0; imp(par(p),par(s)); if(sub(s)->has) { mark(sub(p),x_any()); cp(sub(p)->kv.second,sub(s)->kv.second); } return p;", "assignment")
    d.e("whole", "aself", "PL*", [P], "prep(p); return &(*p=*p);", "prep(p); return p;", "self-assignment")
    d.e("whole", "imp", "void", [P, ("const PL* RS", "s")], "prep(s); prep(p); p->import(*s);", "prep(s); prep(p); imp(par(p),par(s)); auto* a=sub(p); auto* b=sub(s); if(b->has) { if(!a->has) { mark(a,x_any()); ::new((void*)&a->kv.second) PL(); } a->kv.second.m_name=b->kv.second.m_name; imp(a->kv.second,b->kv.second); }", "import")
    d.e("sublist", "nsl", "PL*", [P, N], "return &p->sublist(*n);", "auto* s=sub(p,n); if(!s->has) { mark(s,std::x_id(*n)); ::new((void*)&s->kv.second) PL(); s->kv.second.m_name=*n; } return &s->kv.second;", "sublist")
    d.e("whole", "name", "const S*", [CP], "return &p->name();", "return &p->m_name;", "name")
    d.e("whole", "ren", "void", [P, N], "p->rename(*n);", "p->m_name=*n;", "rename")
    d.e("whole", "cn", "void", [P, N], "::new((void*)p) PL(*n);", "::new((void*)p) PL(); p->m_name=*n;", "constructor from a name")
    for k, f in (("par", "param_names"), ("sub", "sublist_names")):
        d.e("whole", f, "void", [("VS* RS", "v"), CP], "prep(p); ::new((void*)v) VS(p->%s());" % f, "prep(p); ::new((void*)v) VS(); if(%s(p)->has) v->push_back(%s(p)->kv.first);" % (k, k), f)
    return d


T4 = [(o, 8, "i64") for o in (0, 8, 16, 24)]
T3 = T4[:3]
TL = T4 + [(32, 8, "i64"), (40, 8, "i64")]
SS = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"
VV = r"^std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, std::allocator<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>>>::"


def same(G, x):
    return list(x)


def zeros(n):
    return lambda G, x: [G.const(0)] * n


# strings, lists of names and nested lists are values: copying one is copying the value
VALUES = {
    SS + r"basic_string\(std::__cxx11::basic_string<[^()]*(&|&&)\)": {1: T4, "out": {0: T4}, "outargs": True, "fold": same, "as": "string"},
    SS + r"(operator=|assign|_M_assign)\(std::__cxx11::basic_string<[^()]*(&|&&)\)": {1: T4, "out": {0: T4}, "outargs": True, "fold": same, "as": "string", "ret": 0},
    SS + r"basic_string\(\)": {"out": {0: T4}, "outargs": True, "fold": zeros(4), "as": "string"},
    "(" + SS + r"swap\(|^void std::swap<char, std::char_traits<char>)": {0: T4, 1: T4, "out": {0: T4, 1: T4}, "outargs": True, "cat": True, "fold": lambda G, x: list(x[4:]) + list(x[:4]), "as": "swap"},
    SS + r"~basic_string\(\)": {"out": {0: []}, "outargs": True, "as": "~string"},
    VV + r"vector\(\)": {"out": {0: T3}, "outargs": True, "fold": zeros(3), "as": "vector"},
    VV + r"vector\(std::vector<[^()]*(&|&&)\)": {1: T3, "out": {0: T3}, "outargs": True, "fold": same, "as": "vector"},
    VV + r"~vector\(\)": {"out": {0: []}, "outargs": True, "as": "~vector"},
    VV + r"reserve\(": {0: T3, "out": {0: T3}, "outargs": True, "fold": lambda G, x: list(x[:3]), "as": "reserve"},
    "(" + VV + r"push_back\(|" + VV[1:].replace("std::vector<", "^[^(]*std::vector<", 1) + r"emplace_back<)": {0: T3, 1: T4, "out": {0: T3}, "outargs": True, "as": "push_back"},
    r"^ekat::ParameterList::(ParameterList|operator=)\(.*\(\.rec\)": {1: TL, "out": {0: TL}, "outargs": True, "fold": same, "as": "list", "ret": 0},
    r"^ekat::ParameterList::import\(.*\(\.rec\)": {0: TL, 1: TL, "out": {0: TL}, "outargs": True, "as": "import"},
}
TOP = r"^ekat::ParameterList::(ParameterList\(ekat::ParameterList const&\)|operator=|import\()"


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of every operation with its effect on the slot of its key")
    fl = flags(False, mpi=False, kokkos=False, incs=[VERIF + "/shim/absmap"]) + ["-fno-access-control", "-fno-threadsafe-statics"]
    run_pairs(rep, "params", drv(), fl, opaque=ERR + ["^x_nokey$", "^x_badany$"], pure=["^x_slot$", "^x_any$", "^x_size$", "^__cxa_atexit$"], fail=FAIL + ["^x_nokey$", "^x_badany$"], opts=dict(transparent_trunc=True, distinct=True, local_statics=True, pureref=VALUES), pureref=VALUES, extra=["--toponly=" + TOP])
    return rep.finish("")
