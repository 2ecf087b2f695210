"""P25: loggers. spdlog is replaced by plain structures (shim/spdlog), strings by lists of pieces."""
from pairs import *
from strmodel import STRINGS, T4

ERR = [r"^std::__throw", r"^operator new", r"^operator delete", r"^__cxa", r"^std::type_info"]
FAIL = [r"^void ekat::throw_exception<"]
MODEL = dict(STRINGS)
# reference counting
MODEL[r"^std::_Sp_counted_base<.*>::_M_"] = {"out": {0: []}, "outargs": True, "as": "refcount"}
PRE = r'''
#include <cstdlib>
#include <new>
#include <string>
#include <memory>
#define RS __restrict
#include "ekat_logger.hpp"
using S=std::string; using Lv=spdlog::level::level_enum; using C=const ekat::Comm; using Sink=spdlog::sinks::sink;
namespace G=ekat::logger;
struct Obs { int log, con, file, conkind, filekind; bool s0, s1, trunc; long n; unsigned long size, num; S fname, lname, name; };
struct Obs2 { int log; bool s0, s1, c, f; long n; S name; };
namespace {
template<class L> inline void see(L* l, Obs* o, bool on) {
  auto c=l->get_console_sink(); auto f=l->get_file_sink();
  o->log=l->log_level(); o->con=on ? l->console_level() : -1; o->file=l->file_level(); o->conkind=c->x_kind; o->filekind=f->x_kind;
  o->n=l->sinks().size(); o->s0=l->sinks()[0].get()==c.get(); o->s1=l->sinks()[1].get()==f.get();
  o->trunc=f->x_trunc; o->size=f->x_size; o->num=f->x_num; o->fname=f->x_file; o->lname=l->get_logfile_name(); o->name=l->name();
}
template<class L, class M> inline void see(L* l, M* m, Obs2* o) {
  auto c=l->get_console_sink(); auto f=l->get_file_sink();
  o->log=l->log_level(); o->n=l->sinks().size(); o->s0=l->sinks()[0].get()==c.get(); o->s1=l->sinks()[1].get()==f.get();
  o->c=c.get()==m->get_console_sink().get(); o->f=f.get()==m->get_file_sink().get(); o->name=l->name();
}
}
'''
FILES = [("LogNoFile", "X_NULL", "false", "0", "0"), ("LogBasicFile", "X_BASIC", "true", "0", "0"), ("LogBigFiles", "X_ROTATING", "false", "8u*1024u*1024u", "5")]
RANKS = [("LogAllRanks", "true", '*n+"."+std::to_string(c->size())+"."+std::to_string(c->rank())'), ("LogRootRank", "(c->rank()==0)", "*n")]


def drv():
    d = Drv(PRE)
    for j, (fp, kind, tr, sz, num) in enumerate(FILES):
        for k, (mp, on, nm) in enumerate(RANKS):
            T = "G::Logger<G::%s,G::%s>" % (fp, mp)
            d.raw("using L%d%d=%s;" % (j, k, T))
            L = "L%d%d" % (j, k)
            for suf in (0, 1):
                P = [("Obs* RS", "o"), ("const S* RS", "n"), ("Lv", "lev"), ("C* RS", "c")] + ([("const S* RS", "s")] if suf else [])
                name = ("S()" if not j else "%s+%s" % (nm, "*s" if suf else '".log"'))
                ref = '''const bool on=%s; const S f=%s; new(&o->fname) S(); new(&o->lname) S(); new(&o->name) S(); o->log=on ? lev : Lv::off; o->con=on ? lev : -1; o->file=on ? lev : Lv::off; o->conkind=spdlog::X_COLOR; o->filekind=on ? spdlog::%s : spdlog::X_NULL;
 o->n=2; o->s0=o->s1=true; o->trunc=on && %s; o->size=on ? %s : 0; o->num=on ? %s : 0; if(on) o->fname=%s; else o->fname=S(); o->lname=f; o->name=*n;''' % (on, name, kind, tr, sz, num, "f" if j else "S()")
                d.e("create", "new%d%d%d" % (j, k, suf), "void", P, "new(&o->fname) S(); new(&o->lname) S(); new(&o->name) S(); alignas(%s) char b[sizeof(%s)]; auto* l=::new((void*)b) %s(*n,lev,*c%s); see(l,o,%s);" % (L, L, L, ",*s" if suf else "", on), ref, T[3:] + " constructor")
            for k2, (mp2, on2, nm2) in enumerate(RANKS):
                M = "G::Logger<G::%s,G::%s>" % (fp, mp2)
                d.e("share", "shr%d%d%d" % (j, k, k2), "void", [("Obs2* RS", "o"), ("const S* RS", "n"), ("Lv", "lev"), ("C* RS", "c"), (M + "* RS", "m")],
                    "new(&o->name) S(); alignas(%s) char b[sizeof(%s)]; auto* l=::new((void*)b) %s(*n,lev,*c,*m); see(l,m,o);" % (L, L, L), "new(&o->name) S(); o->log=%s ? lev : Lv::off; o->n=2; o->s0=o->s1=o->c=o->f=true; o->name=*n;" % on, T[3:] + " sharing the sinks of a " + mp2 + " logger")
    B, CB, V = ("G::LoggerBase* RS", "l"), ("const G::LoggerBase* RS", "l"), ("Lv", "v")
    for nm, t, r in (("log", "l->log_level()", "l->x_lev"), ("con", "l->console_level()", "l->csink->x_lev"), ("file", "l->file_level()", "l->fsink->x_lev")):
        d.e("levels", "get" + nm, "int", [CB], "return %s;" % t, "return %s;" % r, nm + " level")
        d.e("levels", "set" + nm, "void", [B, V], "l->set_%s_level(v);" % {"con": "console"}.get(nm, nm), r + "=v;" if 0 else "r=v;".replace("r", r, 1), "set " + nm + " level")
    d.e("levels", "fmt", "void", [B, ("const S* RS", "s")], "l->set_format(*s);", "spdlog::x_pattern(static_cast<spdlog::logger*>(l),*s);", "set_format")
    for f in ("set_format", "set_no_format"):
        d.e("levels", f, "void", [B], "l->%s();" % f, 'const S s("%%v"); spdlog::x_pattern(static_cast<spdlog::logger*>(l),s);' .replace("%%", "%"), f + "()")
    return d


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of constructed loggers and their sinks with the documented policy")
    fl = flags(False, mpi=True, kokkos=False, incs=[VERIF + "/shim/spdlog"]) + ["-fno-access-control", "-fno-threadsafe-statics"]
    run_pairs(rep, "loggers", drv(), fl, opaque=ERR + ["^x_pattern$", "^x_flush$"], fail=FAIL, opts=dict(transparent_trunc=True, distinct=True), pureref=MODEL)
    rep.need("create", 12)
    rep.need("share", 12)
    rep.need("levels", 6)
    return rep.finish("")
