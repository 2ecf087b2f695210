"""P12: expression templates evaluate to the written formula at every index."""
from pairs import *

PRE = r'''
#include <Kokkos_Core.hpp>
#include <cmath>
#include <cstdlib>
#define RS __restrict
using u = unsigned long;
struct VExec { using execution_space=VExec; };
namespace Kokkos {
template<> class RangePolicy<VExec> { public: long b, e; template<class A, class B> RangePolicy(A x, B y):b(x),e(y){} };
template<unsigned N> struct MDRangePolicy<VExec,Rank<N>> { long b[N], e[N];
  template<class A, class B> MDRangePolicy(const A (&x)[N], const B (&y)[N]){ for(unsigned k=0;k<N;++k){ b[k]=x[k]; e[k]=y[k]; } }
  template<class A, class B> MDRangePolicy(const Kokkos::Array<A,N>& x, const Kokkos::Array<B,N>& y){ for(unsigned k=0;k<N;++k){ b[k]=x[k]; e[k]=y[k]; } } };
template<class F> inline void parallel_for(const RangePolicy<VExec>& P, const F& f){ for(long i=P.b;i<P.e;++i) f((int)i); }
#define LP(v,k) for(long v=P.b[k];v<P.e[k];++v)
template<class F> inline void parallel_for(const MDRangePolicy<VExec,Rank<2>>& P, const F& f){ LP(i,0) LP(j,1) f((int)i,(int)j); }
template<class F> inline void parallel_for(const MDRangePolicy<VExec,Rank<3>>& P, const F& f){ LP(i,0) LP(j,1) LP(k,2) f((int)i,(int)j,(int)k); }
template<class F> inline void parallel_for(const MDRangePolicy<VExec,Rank<4>>& P, const F& f){ LP(i,0) LP(j,1) LP(k,2) LP(l,3) f((int)i,(int)j,(int)k,(int)l); }
template<class F> inline void parallel_for(const MDRangePolicy<VExec,Rank<5>>& P, const F& f){ LP(i,0) LP(j,1) LP(k,2) LP(l,3) LP(m,4) f((int)i,(int)j,(int)k,(int)l,(int)m); }
template<class F> inline void parallel_for(const MDRangePolicy<VExec,Rank<6>>& P, const F& f){ LP(i,0) LP(j,1) LP(k,2) LP(l,3) LP(m,4) LP(n,5) f((int)i,(int)j,(int)k,(int)l,(int)m,(int)n); }
template<class F> inline void parallel_for(const MDRangePolicy<VExec,Rank<7>>& P, const F& f){ LP(i,0) LP(j,1) LP(k,2) LP(l,3) LP(m,4) LP(n,5) LP(o,6) f((int)i,(int)j,(int)k,(int)l,(int)m,(int)n,(int)o); }
template<class F> inline void parallel_for(const MDRangePolicy<VExec,Rank<8>>& P, const F& f){ LP(i,0) LP(j,1) LP(k,2) LP(l,3) LP(m,4) LP(n,5) LP(o,6) LP(p,7) f((int)i,(int)j,(int)k,(int)l,(int)m,(int)n,(int)o,(int)p); }
template<class F, unsigned N> inline void parallel_for(const std::string&, const MDRangePolicy<VExec,Rank<N>>& P, const F& f){ parallel_for(P,f); }
template<class F> inline void parallel_for(const std::string&, const RangePolicy<VExec>& P, const F& f){ parallel_for(P,f); }
}
// Kokkos 4 spelling on top of the installed Kokkos 3.7
namespace Kokkos { template<class T> inline constexpr bool is_view_v = Kokkos::is_view<T>::value; }
#include "ekat_expression_binary_op.hpp"
#include "ekat_expression_binary_predicate.hpp"
#include "ekat_expression_conditional.hpp"
#include "ekat_expression_math.hpp"
#include "ekat_expression_view.hpp"
#include "ekat_expression_eval.hpp"
namespace {
// a leaf expression: an array of R dimensions; forgets its data when destroyed
template<class T, int R> struct Lf : ekat::ExpressionBase<Lf<T,R>> { using return_type=T; const T* p; int n[R?R:1];
  template<class... E> Lf(const T* q, E... e):p(q),n{(int)e...}{}
  Lf(const Lf& o):p(o.p){ for(int k=0;k<(R?R:1);++k) n[k]=o.n[k]; }
  ~Lf(){ p=nullptr; }
  static constexpr int rank(){ return R; } int extent(int i) const { return n[i]; }
  template<class... A> T eval(A... a) const { static_assert(sizeof...(A)==R,""); const long x[]={0,(long)a...}; long k=0; for(int d=0;d<R;++d) k=k*n[d]+x[d+1]; return p[k]; } };
// an expression whose evaluation is recorded
template<class T> struct Ev : ekat::ExpressionBase<Ev<T>> { using return_type=T; int id; Ev(int i):id(i){} static constexpr int rank(){ return 1; } int extent(int) const { return 0; } T eval(int i) const; };
template<class A, class B> constexpr bool same=std::is_same_v<A,B>;
template<class T, int R> struct VOut { enum{rank=R}; struct traits { using device_type=VExec; }; using value_type=T; T* p; int n[R?R:1];
  int extent_int(int i) const { return n[i]; }
  template<class... A> T& operator()(A... a) const { static_assert(sizeof...(A)==R,""); const long x[]={0,(long)a...}; long k=0; for(int d=0;d<R;++d) k=k*n[d]+x[d+1]; return p[k]; } };
}
'''
BIN = [("+", "Plus"), ("-", "Minus"), ("*", "Mult"), ("/", "Div")]
CMP = ["==", "!=", ">", ">=", "<", "<=", "&&", "||"]
UN = ["sqrt", "exp", "log", "sin", "cos"]
B2 = ["pow", "max", "min"]


def drv(A, B, R):
    d = Drv(PRE + "namespace { using A=%s; using B=%s; using C=std::common_type_t<A,B>; }\n" % (A, B))
    es = ["e%d" % k for k in range(R)]
    ix = ["i%d" % k for k in range(R)]
    lin = "0"
    for k in range(R):
        lin = "((%s)*(long)e%d+i%d)" % (lin, k, k)
    P = [("const A* RS", "p"), ("const B* RS", "q"), ("A", "a"), ("B", "b")] + [("unsigned short", e) for e in es]
    PI = P + [("unsigned short", i) for i in ix]
    XP = "Lf<A,%d> x(%s); " % (R, ",".join(["p"] + es))
    XQ = "Lf<B,%d> y(%s); " % (R, ",".join(["q"] + es))
    ev = ".eval(%s)" % ",".join("(int)" + i for i in ix)
    pl, ql = "p[%s]" % lin, "q[%s]" % lin
    n = 0
    # where the operand is: (expression, scalar)
    KIND = [("ee", "x", "y", pl, ql), ("es", "x", "b", pl, "b"), ("se", "a", "y", "a", ql)]

    def e(group, expr, val, ret, what, cast="(%s)"):
        nonlocal n
        n += 1
        # the expression outlives its operands
        mk = "auto f=[&]{ %s%s return %s; }; auto ex=f(); " % (XP, XQ, expr)
        d.e(group, "v%d" % n, ret, PI, mk + "static_assert(same<std::remove_cv_t<typename decltype(ex)::return_type>,%s>,\"value type of the expression\"); return ex%s;" % (ret, ev), "return (%s)(%s);" % (ret, val), what + ": value at an index")
        for k in range(R):
            d.e("extent", "x%d_%d" % (n, k), "int", P, mk + "return ex.extent(%d);" % k, "return e%d;" % k, what + ": extent %d" % k)
        if "static" not in what:
            d.e("extent", "r%d" % n, "int", P, mk + "return decltype(ex)::rank();", "return %d;" % R, what + ": rank")
    for tag, l, r, vl, vr in KIND:
        k = {"ee": "expression %s expression", "es": "expression %s scalar", "se": "scalar %s expression"}[tag]
        for op, _ in BIN:
            e("op", "%s %s %s" % (l, op, r), "%s %s %s" % (vl, op, vr), "C", k % op)
        for op in CMP:
            e("predicate", "%s %s %s" % (l, op, r), "%s %s %s" % (vl, op, vr), "bool", k % op)
        if "float" in A or "double" in A or "double" in B or "float" in B:
            e("math", "pow(%s,%s)" % (l, r), "Kokkos::pow((C)%s,(C)%s)" % (vl, vr), "C", "pow(%s)" % (k % ","))
        for f in ("max", "min"):
            e("math", "%s(%s,%s)" % (f, l, r), "Kokkos::%s<C>((C)%s,(C)%s)" % (f, vl, vr), "C", "%s(%s)" % (f, k % ","))
    e("op", "-x", "-%s" % pl, "A", "-expression")
    for f in UN:
        d.e("math", "u_" + f, "decltype(Kokkos::%s(A()))" % f, PI, XP + "auto ex=%s(x); return ex%s;" % (f, ev), "return Kokkos::%s(%s);" % (f, pl), "%s(expression): value at an index" % f)
        for k in range(R):
            d.e("extent", "u_%s_x%d" % (f, k), "int", P, XP + "auto ex=%s(x); return ex.extent(%d);" % (f, k), "return e%d;" % k, "%s(expression): extent %d" % (f, k))
    # conditional: condition, then, else each an expression or a scalar
    CN = [("xe", "x<=y", "%s<=%s" % (pl, ql)), ("xs", "x<b", "%s<b" % pl), ("s", "(a<b)", "a<b")]
    for cn, ce, cv in CN:
        for tag, l, r, vl, vr in KIND + [("ss", "a", "b", "a", "b")]:
            if cn == "s" and tag == "ss":
                continue
            e("conditional", "if_then_else(%s,%s,%s)" % (ce, l, r), "%s ? (C)%s : (C)%s" % (cv, vl, vr), "C", "if_then_else(%s,%s)" % ({"xe": "expression", "xs": "expression<scalar", "s": "scalar"}[cn], tag))
    # composition, as written
    e("compose", "(x+y)*(x-b)", "((C)(%s+%s))*((C)(%s-b))" % (pl, ql, pl), "C", "(x+y)*(x-b)")
    e("compose", "a-(x-y)/b", "a-((C)((C)(%s-%s)/b))" % (pl, ql), "C", "a-(x-y)/b")
    e("compose", "if_then_else(x<y && !(0) && x!=b,-x+y,max(x,y))" if 0 else "if_then_else(x<y && x!=b,-x+y,max(x,y))", "(%s<%s && %s!=b) ? (C)((A)(-%s)+%s) : Kokkos::max<C>((C)%s,(C)%s)" % (pl, ql, pl, pl, ql, pl, ql), "C", "if_then_else(x<y && x!=b,-x+y,max(x,y))")
    return d


def drv_view(T, R, lay):
    d = Drv(PRE + "namespace { using T=%s; }\n" % T)
    es = ["e%d" % k for k in range(R)]
    ix = ["i%d" % k for k in range(R)]
    order = range(R) if lay == "Right" else reversed(range(R))
    lin = "0"
    for k in order:
        lin = "((%s)*(u)e%d+i%d)" % (lin, k, k)
    for cst in ("", "const "):
        t = "c" if cst else "m"
        V = "using V=Kokkos::View<%sT%s,Kokkos::Layout%s,Kokkos::HostSpace,Kokkos::MemoryTraits<Kokkos::Unmanaged>>; auto e=ekat::expression(V(%s)); " % (cst, "*" * R, lay, ",".join(["p"] + es))
        P = [("%sT* RS" % cst, "p")] + [("unsigned short", e) for e in es]
        d.e("view", "va%d%s" % (R, t), "const T*", P + [("unsigned short", i) for i in ix], V + "return &e.eval(%s);" % ",".join("(int)" + i for i in ix), "return p+%s;" % lin, "expression(view) of rank %d [%s]: the element at an index" % (R, lay))
        for k in range(R):
            d.e("view", "vx%d%s%d" % (R, t, k), "int", P, V + "return e.extent(%d);" % k, "return e%d;" % k, "expression(view) of rank %d [%s]: extent %d" % (R, lay, k))
        d.e("view", "vr%d%s" % (R, t), "int", P, V + "return e.rank();", "return %d;" % R, "expression(view): rank %d" % R)
    return d


def drv_eval(T, R):
    d = Drv(PRE + "namespace { using T=%s; using S=%s; }\n" % (T, "float" if T == "double" else "double"))
    es = ["e%d" % k for k in range(R)]
    fs = ["f%d" % k for k in range(R)]
    P = [("const S* RS", "p"), ("T* RS", "o")] + [("unsigned short", e) for e in es]
    lin = "0"
    for k in range(R):
        lin = "((%s)*(long)e%d+i%d)" % (lin, k, k)
    loops = "".join("for(int i%d=0;i%d<e%d;++i%d) " % (k, k, k, k) for k in range(R))
    X = "Lf<S,%d> x(%s); VOut<T,%d> r{o,{%s}}; " % (R, ",".join(["p"] + es), R, ",".join("(int)" + e for e in es) or "0")
    d.e("evaluate", "e%d" % R, "void", P, X + "ekat::evaluate(x,r);", loops + "o[%s]=(T)p[%s];" % (lin, lin), "evaluate of rank %d: every element of the result holds the expression at its index" % R)
    d.e("evaluate", "es%d" % R, "void", P, X + "ekat::evaluate(x*x-S(2),r);", loops + "o[%s]=(T)((p[%s]*p[%s])-S(2));" % (lin, lin, lin), "evaluate(x*x-2) of rank %d: every element of the result holds the expression at its index" % R)
    return d


def drv_rej(R):
    d = Drv(PRE)
    es = ["e%d" % k for k in range(R)]
    fs = ["f%d" % k for k in range(R)]
    P = [("const double* RS", "p"), ("double* RS", "o")] + [("unsigned short", e) for e in es + fs]
    X = "Lf<double,%d> x(%s); VOut<double,%d> r{o,{%s}}; " % (R, ",".join(["p"] + es), R, ",".join("(int)" + f for f in fs))
    bad = " || ".join("e%d!=f%d" % (k, k) for k in range(R))
    li, lo = "0", "0"
    for k in range(R):
        li = "((%s)*(long)e%d+i%d)" % (li, k, k)
    loops = "".join("for(int i%d=0;i%d<e%d;++i%d) " % (k, k, k, k) for k in range(R))
    d.e("reject", "rej%d" % R, "void", P, X + "ekat::evaluate(x,r);", "if(%s) std::abort(); " % bad + loops + "o[%s]=p[%s];" % (li, li), "evaluate of rank %d rejects exactly results of other extents" % R)
    return d


def check(pid, tier):
    rep = Report(pid, tier, "value at a symbolic index, extents and rank of every expression node equal to the written formula over its operands' values; evaluate as the set of stores")
    jobs = [("o", "double", "double", 1), ("o", "int", "double", 2), ("o", "float", "double", 1), ("o", "int", "int", 2), ("o", "double", "float", 3), ("o", "double", "int", 1)]
    if tier == "thorough":
        jobs += [("o", "long", "int", 1), ("o", "unsigned", "int", 1), ("o", "float", "float", 3), ("o", "double", "double", 4), ("o", "int", "float", 5), ("o", "double", "double", 6)]
    jobs += [("v", "double", R, l) for R in range(0, 7) for l in ("Right", "Left") if R > 0 or l == "Right"]
    jobs += [("e", T, R) for T in ("double", "float") for R in range(0, 7 if tier == "quick" else 7)]
    jobs += [("r", R) for R in range(1, 7)]
    lib = [r"^(sqrt|exp|log|sin|cos|pow|fmin|fmax)[fl]?$"]

    def one(j):
        sub = Report(pid, tier, "")
        nm = "ex_%d" % jobs.index(j)
        op = dict(transparent_trunc=True, nowrap=True, ult_as_slt=True)
        if j[0] == "o":
            run_pairs(sub, nm, drv(*j[1:]), flags(True, kk4=False), note=" [%s, %s, rank %d]" % j[1:], pure=lib, opts=dict(op, nowrap=False) if "int" == j[1] == j[2] else op)
        elif j[0] == "v":
            run_pairs(sub, nm, drv_view(*j[1:]), flags(True, kk4=True), opts=op)
        elif j[0] == "e":
            run_pairs(sub, nm, drv_eval(*j[1:]), flags(True), note=" [%s]" % j[1], sets=True, opts=op, opaque=[r"^std::__throw", r"^std::__cxx11", r"^std::(basic_)?o", r"^operator new", r"^operator delete"], fail=[r"^void ekat::throw_exception<"])
        else:
            run_pairs(sub, nm, drv_rej(*j[1:]), flags(True), sets=True, opts=op, opaque=[r"^std::__throw", r"^std::__cxx11", r"^std::(basic_)?o", r"^operator new", r"^operator delete"], fail=[r"^void ekat::throw_exception<"])
        return sub
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(op=70, predicate=140, math=60, conditional=60, compose=15, extent=300, view=40, evaluate=20, reject=6).items():
        rep.need(r, k)
    rep.assumptions += ["MDRange and range policies visit every index of the range once (Kokkos); ranks 7 and 8 of evaluate are not instantiable with the installed Kokkos",
                        "Kokkos::pow/max/min/sqrt/... are the scalar functions"]
    return rep.finish("Every operator and function of the expression templates, in every combination of expression and scalar operands, for several pairs of value types.")
