"""P15: Comm wraps the MPI operations of the same name."""
from pairs import *

INC = r'''
#include <cstdlib>
#include <cstring>
#include <new>
#define RS __restrict
#define die() std::abort()
'''
UT = r'''
#include "%s"
struct UT { int i, j; };
namespace ekat { template<> MPI_Datatype get_mpi_type<UT>() { return MPI_2INT; } }
using C = ekat::Comm;
namespace {
struct Raw { MPI_Comm c; int size, rank; };
static_assert(sizeof(C)==sizeof(Raw) && std::is_trivially_copyable<C>::value, "TYPEWIT size: a communicator, its size and rank");
'''
ERR = [r"^std::__throw", r"^std::__cxx11", r"^std::(basic_)?o", r"^operator new", r"^operator delete", r"^__cxa"]
FAIL = [r"^void ekat::throw_exception<"]
TYPES = [("char", "MPI_CHAR"), ("short", "MPI_SHORT"), ("int", "MPI_INT"), ("long", "MPI_LONG"), ("long long", "MPI_LONG_LONG"), ("float", "MPI_FLOAT"),
         ("double", "MPI_DOUBLE"), ("bool", "MPI_CXX_BOOL"), ("UT", "MPI_2INT")]
MPIREF = {r"^MPI_Initialized$": {"out": {0: [(0, 4, "i32")]}, "as": "initialized", "outargs": True},
          r"^MPI_Comm_size$": {"out": {1: [(0, 4, "i32")]}, "as": "comm_size", "outargs": True},
          r"^MPI_Comm_rank$": {"out": {1: [(0, 4, "i32")]}, "as": "comm_rank", "outargs": True},
          r"^MPI_Comm_split$": {"out": {3: [(0, 8, "ptr")]}, "as": "MPI_Comm_split", "effect": True}}


def drv_mpi(debug, fatal):
    pre = INC + UT % "ekat_comm.cpp" + r'''
inline void inited() {
#ifndef NDEBUG
  int f; MPI_Initialized(&f); if(f==0) die();
#endif
}
inline void reset(Raw& r, MPI_Comm m) {
  if (m==MPI_COMM_NULL) die();
  r.c=m; MPI_Comm_size(m,&r.size); MPI_Comm_rank(m,&r.rank); MPI_Comm_set_errhandler(m,%s);
}
}
''' % ("MPI_ERRORS_ARE_FATAL" if fatal else "MPI_ERRORS_RETURN")
    d = Drv(pre)
    CC = ("const C& RS", "const Raw& RS", "c")
    note = "collective"
    for T, M in TYPES:
        t = T.replace(" ", "")
        V, I, R = ("%s* RS" % T, "v"), ("const %s* RS" % T, "x"), ("%s* RS" % T, "y")
        n, op = ("int", "n"), ("MPI_Op", "op")

        def e(nm, P, call, ref, what, alts=()):
            d.e("collective", nm + t, "void", [CC] + P, call, "inited(); " + ref, "%s, T=%s" % (what, T))
            for a in alts:
                d.alt(nm + t, "inited(); " + a)
        e("bcast", [V, n, ("int", "root")], "c.broadcast(v,n,root);", "MPI_Bcast(v,n,%s,root,c.c);" % M, "broadcast(vals,count,root)")
        e("scan", [I, R, n, op], "c.scan(x,y,n,op);", "MPI_Scan(x,y,n,%s,op,c.c);" % M, "scan(in,out,count,op)")
        e("reduce", [I, R, n, op], "c.all_reduce(x,y,n,op);", "MPI_Allreduce(x,y,n,%s,op,c.c);" % M, "all_reduce(in,out,count,op)")
        e("gather", [I, R, n], "c.all_gather(x,y,n);", "MPI_Allgather(x,n,%s,y,n,%s,c.c);" % (M, M), "all_gather(in,out,count)")
        e("scan_ip", [V, n, op], "c.scan(v,n,op);", "MPI_Scan(MPI_IN_PLACE,v,n,%s,op,c.c);" % M, "scan in place")
        e("reduce_ip", [V, n, op], "c.all_reduce(v,n,op);", "MPI_Allreduce(MPI_IN_PLACE,v,n,%s,op,c.c);" % M, "all_reduce in place")
        e("gather_ip", [V, n], "c.all_gather(v,n);", "MPI_Allgather(MPI_IN_PLACE,0,MPI_DATATYPE_NULL,v,n,%s,c.c);" % M, "all_gather in place",
          ["MPI_Allgather(MPI_IN_PLACE,n,%s,v,n,%s,c.c);" % (M, M), "MPI_Allgather(MPI_IN_PLACE,0,%s,v,n,%s,c.c);" % (M, M), "MPI_Allgather(MPI_IN_PLACE,n,MPI_DATATYPE_NULL,v,n,%s,c.c);" % M])
        d.raw('static_assert(std::is_same<decltype(ekat::get_mpi_type<%s>()),MPI_Datatype>::value, "TYPEWIT bcast%s: get_mpi_type");' % (T, t))
    O = ("C* RS", "Raw* RS", "o")
    m = ("MPI_Comm", "m")
    d.e("construction", "ctor0", "void", [O], "new(o) C();", "inited(); reset(*o,MPI_COMM_SELF);", "Comm() wraps MPI_COMM_SELF")
    d.e("construction", "ctor1", "void", [O, m], "new(o) C(m);", "inited(); reset(*o,m);", "Comm(c) wraps c, its size and rank, and rejects the null communicator")
    d.e("construction", "reset", "void", [O, m], "o->reset_mpi_comm(m);", "reset(*o,m);", "reset_mpi_comm(c) wraps c, its size and rank, and rejects the null communicator")
    d.alt("reset", "inited(); reset(*o,m);")
    d.e("construction", "split", "void", [CC, O, ("int", "k")], "new(o) C(c.split(k));", "inited(); MPI_Comm n; MPI_Comm_split(c.c,k,c.rank,&n); inited(); reset(*o,n);", "split(color) wraps the part of this color, ordered by rank")
    d.alt("split", "inited(); MPI_Comm n; MPI_Comm_split(c.c,k,0,&n); inited(); reset(*o,n);")   # equal keys: ordered by old rank
    d.e("collective", "barrier", "void", [CC], "c.barrier();", "inited(); MPI_Barrier(c.c);", "barrier()")
    accessors(d, CC)
    return d


def accessors(d, CC):
    for nm, ret, t, r in (("size", "int", "c.size()", "c.size"), ("rank", "int", "c.rank()", "c.rank"), ("mpi", "MPI_Comm", "c.mpi_comm()", "c.c"),
                          ("rootrank", "int", "c.root_rank()", "0"), ("amroot", "bool", "c.am_i_root()", "c.rank==0")):
        d.e("accessors", nm, ret, [CC], "return %s;" % t, "return %s;" % r, nm)


def drv_serial():
    pre = INC + '#include <type_traits>\n' + UT % "ekat_comm_serial.cpp" + r'''
inline void reset(Raw& r, MPI_Comm m) { if (m==MPI_COMM_NULL) die(); r.c=m; r.size=1; r.rank=0; }
}
'''
    d = Drv(pre)
    CC = ("const C& RS", "const Raw& RS", "c")
    for T, M in TYPES:
        if T == "bool":
            continue
        t = T.replace(" ", "")
        V, I, R = ("%s* RS" % T, "v"), ("const %s* RS" % T, "x"), ("%s* RS" % T, "y")
        n, op = ("int", "n"), ("MPI_Op", "op")
        g = "if(!(n>=0)) return; "
        for nm, P, call in (("scan", [I, R, n, op], "c.scan(x,y,n,op);"), ("reduce", [I, R, n, op], "c.all_reduce(x,y,n,op);"), ("gather", [I, R, n], "c.all_gather(x,y,n);")):
            d.e("collective", nm + t, "void", [CC] + P, g + call, g + "std::copy(x,x+n,y);", "%s copies the %s values of the only process" % (nm, T))
            d.alt(nm + t, g + "for(int i=0;i<n;++i) y[i]=x[i];")
            d.alt(nm + t, g + "std::copy_n(x,n,y);")
            d.alt(nm + t, g + "std::memmove(y,x,n*sizeof(%s));" % T)
            d.alt(nm + t, g + "std::memcpy(y,x,n*sizeof(%s));" % T)
            d.alt(nm + t, g + "if(n>0) std::memcpy(y,x,n*sizeof(%s));" % T)
        for nm, P, call in (("bcast", [V, n, ("int", "root")], "c.broadcast(v,n,root);"), ("scan_ip", [V, n, op], "c.scan(v,n,op);"),
                            ("reduce_ip", [V, n, op], "c.all_reduce(v,n,op);"), ("gather_ip", [V, n], "c.all_gather(v,n);")):
            d.e("collective", nm + t, "void", [CC] + P, call, "", "%s of one process leaves its %s values as they are" % (nm, T))
        d.e("collective", "type" + t, "int", [], "return ekat::get_mpi_type<%s>();" % T, "return %s;" % M, "get_mpi_type<%s>" % T)
    O = ("C* RS", "Raw* RS", "o")
    m = ("MPI_Comm", "m")
    d.e("construction", "ctor0", "void", [O], "new(o) C();", "reset(*o,MPI_COMM_SELF);", "Comm() is the only process")
    d.e("construction", "ctor1", "void", [O, m], "new(o) C(m);", "reset(*o,m);", "Comm(c) wraps c: size 1, rank 0; rejects the null communicator")
    d.e("construction", "reset", "void", [O, m], "o->reset_mpi_comm(m);", "reset(*o,m);", "reset_mpi_comm(c) wraps c: size 1, rank 0; rejects the null communicator")
    d.alt("reset", "if(m==MPI_COMM_NULL) die(); o->c=m;")
    d.e("construction", "split", "void", [CC, O, ("int", "k")], "new(o) C(c.split(k));", "reset(*o,MPI_COMM_SELF);", "split(color) is the only process")
    d.e("collective", "barrier", "void", [CC], "c.barrier();", "", "barrier() does nothing")
    accessors(d, CC)
    return d


def job(a):
    kind, debug, fatal, tier = a
    rep = Report("P15", tier, "")
    note = " [%s%s%s]" % (kind, ", Debug" if debug else ", NDEBUG", "" if kind == "serial" else ", errors %s" % ("fatal" if fatal else "returned"))
    fl = [f for f in flags(not debug, mpi=False, kokkos=False) if f] + ["-fno-access-control"]
    if kind == "mpi":
        fl += ["-DEKAT_ENABLE_MPI"] + mpi_flags() + (["-DEKAT_MPI_ERRORS_ARE_FATAL"] if fatal else [])
        run_pairs(rep, "comm%d%d" % (debug, fatal), drv_mpi(debug, fatal), fl, opaque=ERR, pureref=MPIREF, fail=FAIL, note=note)
    else:
        run_pairs(rep, "ser%d" % debug, drv_serial(), fl, opaque=ERR, fail=FAIL, note=note, opts=dict(nowrap=True, transparent_trunc=True))
    return rep


def check(pid, tier):
    rep = Report(pid, tier, "every Comm operation is the MPI call of the same meaning on the stored communicator (or its one-process equivalent)")
    for r in pmap(job, [("mpi", 1, 1, tier), ("mpi", 0, 1, tier), ("mpi", 0, 0, tier), ("mpi", 1, 0, tier), ("serial", 0, 0, tier), ("serial", 1, 0, tier)]):
        rep.merge(r)
    rep.need("collective", 300)
    rep.need("construction", 20)
    rep.need("accessors", 20)
    rep.assumptions += ["the MPI library does what its standard says for the call it is given; its calls are uninterpreted effects here"]
    return rep.finish("value-graph comparison of every Comm operation, per value type, build mode, error mode and implementation file, with the MPI call it stands for: same buffers, counts, datatype, operation, root and communicator, exactly one call on every path")
