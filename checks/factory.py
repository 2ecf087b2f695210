"""P24: factories. The register is a function from keys to slots (shim/absmap)."""
from pairs import *
from params import ERR, FAIL, T4, SS, VALUES

PRE = r'''
#include <cstdlib>
#include <string>
#include <memory>
#include <map>
#include <iostream>
#define RS __restrict
#include "ekat_factory.hpp"
using S=std::string;
struct Base { virtual int foo() const = 0; };
struct Big { double a,b,c; };
struct K { long id; bool operator<(const K&) const; };
namespace {
template<class F> using Slot=typename F::register_type::slot;
template<class F> inline auto* at(F* f, const typename F::key_type* k){ return f->m_register.x_at(std::x_id(*k)); }
inline void die(){ std::abort(); }
}
'''
TYPES = [("int", "std::shared_ptr<Base>", ["char"]), ("S", "std::shared_ptr<Base>", []), ("K", "Base*", []), ("S", "Base*", ["int"]), ("K", "std::shared_ptr<Base>", ["const Big&", "double"]), ("S", "std::unique_ptr<Base>", ["Big&", "long", "const double*"])]


def drv():
    d = Drv(PRE)
    for j, (k, p, a) in enumerate(TYPES):
        f = "F%d" % j
        d.raw("using %s=ekat::Factory<%s>;" % (f, ", ".join(["Base", k, p] + a)))
        F, CF, N, C = (f + "* RS", "f"), ("const %s* RS" % f, "f"), ("const %s* RS" % k, "n"), (f + "::creator_type", "c")
        key = "*(long*)&s->kv.first=std::x_id(*n); "
        w = "Factory<Base,%s> " % ",".join([k, p] + a)
        put = "{ if(!s->has) { s->has=1; " + key + "} s->kv.second=c; return true; }"
        d.e("register", "reg%d" % j, "bool", [F, N, C], "return f->register_product(*n,c);", "auto* s=at(f,n); if(!s->has) " + put + " return false;", w + "register_product")
        d.e("register", "rep%d" % j, "bool", [F, N, C, ("bool", "b")], "return f->register_product(*n,c,b);", "auto* s=at(f,n); if(!s->has || b) " + put + " return false;", w + "register_product with replacement")
        d.e("query", "has%d" % j, "bool", [CF, N], "return f->has_product(*n);", "return at(f,n)->has!=0;", w + "has_product")
        d.e("query", "size%d" % j, "unsigned long", [CF], "return f->register_size();", "return f->m_register.size();", w + "register_size")
        d.e("register", "clean%d" % j, "void", [F], "f->clean_up();", "f->m_register.clear();", w + "clean_up")
        d.e("instance", "inst%d" % j, "bool", [], "auto* a=&F::instance(); auto* s=a->m_register.x_at(x_any()); const bool h=s->has; const auto c=s->kv.second; auto* b=&F::instance(); auto* u=b->m_register.x_at(x_any()); return a==b && u->has==h && u->kv.second==c;".replace("F::", f + "::"), "F::instance(); F::instance(); return true;".replace("F::", f + "::"), w + "instance")
        ps = [(t, "a%d" % i) for i, t in enumerate(a)]
        fw = "".join(", std::forward<%s>(a%d)" % (t, i) for i, t in enumerate(a))
        ca = ", ".join("std::forward<%s>(a%d)" % (t, i) for i, t in enumerate(a))
        body = "auto* s=at(f,n); if(%s!s->has) die(); ::new((void*)r) " + p + "(s->kv.second(" + ca + "));"
        d.e("create", "new%d" % j, "void", [(p + "* RS", "r"), F, N] + ps, "::new((void*)r) %s(f->create(*n%s));" % (p, fw), body % "f->m_register.size()==0 || ", w + "create")
        d.alt("new%d" % j, body % "")
    return d


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of every operation with its effect on the slot of its key")
    fl = flags(False, mpi=False, kokkos=False, incs=[VERIF + "/shim/absmap"]) + ["-fno-access-control", "-fno-threadsafe-statics"]

    def shared(J):
        # one factory for all threads
        for f in J["functions"]:
            if f["name"].startswith("t_inst"):
                tl = [i for b in f["blocks"] for i in b["insts"] if i["op"] == "call" and str(i.get("callee", "")).startswith("llvm.threadlocal.address")]
                if tl:
                    rep.bad("instance", "instance", "%s: the factory is per thread" % repoloc(tl[0].get("loc")), key="instance|tls")
                else:
                    rep.ok("instance", 1)
    run_pairs(rep, "factory", drv(), fl, opaque=ERR + ["^x_nokey$", "^operator\\+"], pure=["^x_slot$", "^x_any$", "^x_size$", "^__cxa_atexit$"], fail=FAIL + ["^x_nokey$"], opts=dict(transparent_trunc=True, distinct=True, local_statics=True), each=shared)
    return rep.finish("")
