"""P22: tridiagonal solvers - Thomas and cyclic reduction, sequential and team-parallel."""
from pairs import *
from team import ENV

PRE = ENV + r'''
#include "ekat_pack.hpp"
#include "ekat_tridiag.hpp"
namespace {
template<class D> using VU = Kokkos::View<D, Kokkos::LayoutRight, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
// rows may be farther apart than they are long
template<class D> VU<D> rows(VU<D> v, unsigned long ld) { auto m=v.impl_map(); m.m_impl_offset.m_stride=ld; return VU<D>(v.impl_track(),m); }
template<class D> using VL = Kokkos::View<D, Kokkos::LayoutLeft, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>>;
}
'''
# what one thread does: a team operation is specified by the work of thread `tid` of `nthr`
SINGLE = "if(tid==0) "
BAR = "x_barrier(dl,d,du,x); "


def drv(D, X, n, sync, one, mix=False):
    """D, X: scalar types of matrix and data; n lanes (of the data only if mix)"""
    P = lambda t: "ekat::Pack<%s,%d>" % (t, n) if n > 1 else t
    PDT = D if mix else P(D)
    d = Drv(PRE + "namespace { using D=%s; using X=%s; using PD=%s; using PX=%s; constexpr int n=%d; }\n" % (D, X, PDT, P(X), n))
    A = [("PD* RS", q) for q in ("dl", "d", "du")] + [("PX* RS", "x"), ("unsigned short", "nr0")]
    M = [("unsigned short", "m0"), ("unsigned short", "lx"), ("unsigned short", "la")]
    TM = [("int", "tid"), ("int", "nthr")]
    # at least three rows (any number), or exactly one or two
    dim = "const int nr=%s, m=(int)m0+1; (void)m; " % ("(int)nr0+3" if not one else str(one))
    dim1 = "const int nr=%s; " % ("(int)nr0+3" if not one else str(one))
    team = "VTeam t{tid,nthr,0,1,{dl,d,du,x}}; "
    L = S = ""
    note = " [%s/%s%s, %s]" % (D, X, (", %spacks of %d" % ("data in " if mix else "", n)) if n > 1 else "", ("three or more rows", "one row", "two rows")[one])
    A1 = "VU<PD*> a(dl,nr), b(d,nr), c(du,nr); "
    a1 = dim + A1
    am = dim + "auto a=rows<PD**>(VU<PD**>(dl,nr,m),la), b=rows<PD**>(VU<PD**>(d,nr,m),la), c=rows<PD**>(VU<PD**>(du,nr,m),la); "
    x1 = "VU<PX*> v(x,nr); "
    xm = "auto v=rows<PX**>(VU<PX**>(x,nr,m),lx); "
    s = dim + "const int nrow=nr; "

    def el(v, i):
        return "%s[(%s)%s]" % (v, i, S)

    def xe(i, j):
        return "x[((%s)*(int)lx+%s)%s]" % (i, j, S)
    if not sync:
        # sequential variants, matrix not overwritten in a specified way except d
        back1 = L + " x[(nrow-1)%s]/=d[(nrow-1)%s]; for(int i=nrow-1;i>0;--i) " % (S, S) + L + "%s=(%s-%s*%s)/%s;" % (el("x", "i-1"), el("x", "i-1"), el("du", "i-1"), el("x", "i"), el("d", "i-1"))
        r1 = dim1 + "const int nrow=nr; " + "for(int i=1;i<nrow;++i) " + L + "{ const auto f=%s/%s; %s-=f*%s; %s-=f*%s; } " % (el("dl", "i"), el("d", "i-1"), el("d", "i"), el("du", "i-1"), el("x", "i"), el("x", "i-1")) + back1
        d.e("thomas", "s1", "void", A, dim1 + A1 + x1 + "ekat::tridiag::thomas(a,b,c,v);", r1, "thomas, one right-hand side" + note)
        if n == 1:
            d.e("thomas", "s1l", "void", A, dim1 + A1.replace("VU", "VL") + x1.replace("VU", "VL") + "ekat::tridiag::thomas(a,b,c,v);", r1, "thomas, one right-hand side, LayoutLeft" + note)
        rm = (s + "for(int i=1;i<nrow;++i) { for(int q=0;q<1;++q) " + L + "%s-=%s/%s*%s; " % (el("d", "i"), el("dl", "i"), el("d", "i-1"), el("du", "i-1"))
              + "for(int j=0;j<m;++j) " + L + "%s-=%s/%s*%s; } " % (xe("i", "j"), el("dl", "i"), el("d", "i-1"), xe("i-1", "j"))
              + "for(int j=0;j<m;++j) " + L + "%s/=%s; " % (xe("nrow-1", "j"), el("d", "nrow-1"))
              + "for(int i=nrow-1;i>0;--i) for(int j=0;j<m;++j) " + L + "%s=(%s-%s*%s)/%s;" % (xe("i-1", "j"), xe("i-1", "j"), el("du", "i-1"), xe("i", "j"), el("d", "i-1")))
        d.e("thomas", "sm", "void", A + M, a1 + xm + "ekat::tridiag::thomas(a,b,c,v);", rm, "thomas, several right-hand sides" + note)

        def me(v, i, j):
            return "%s[((%s)*(int)la+%s)%s]" % (v, i, j, S)
        rmm = (s + "for(int i=1;i<nrow;++i) for(int j=0;j<m;++j) " + L + "{ const auto f=%s/%s; %s-=f*%s; %s-=f*%s; } " % (me("dl", "i", "j"), me("d", "i-1", "j"), me("d", "i", "j"), me("du", "i-1", "j"), xe("i", "j"), xe("i-1", "j"))
               + "for(int j=0;j<m;++j) " + L + "%s/=%s; " % (xe("nrow-1", "j"), me("d", "nrow-1", "j"))
               + "for(int i=nrow-1;i>0;--i) for(int j=0;j<m;++j) " + L + "%s=(%s-%s*%s)/%s;" % (xe("i-1", "j"), xe("i-1", "j"), me("du", "i-1", "j"), xe("i", "j"), me("d", "i-1", "j")))
        d.e("thomas", "smm", "void", A + M, am + xm + "ekat::tridiag::thomas(a,b,c,v);", rmm, "thomas, several matrices" + note)
    # team Thomas: rank 0 factorises, everybody waits, each thread solves its own columns
    fac = "for(int i=1;i<nrow;++i) " + L + "{ %s/=%s; %s-=%s*%s; } " % (el("dl", "i"), el("d", "i-1"), el("d", "i"), el("dl", "i"), el("du", "i-1"))
    col = ("{ for(int i=1;i<nrow;++i) " + L + "%s-=%s*%s; " % (xe("i", "j"), el("dl", "i"), xe("i-1", "j")) + L + "%s/=%s; " % (xe("nrow-1", "j"), el("d", "nrow-1"))
           + "for(int i=nrow-1;i>0;--i) " + L + "%s=(%s-%s*%s)/%s; }" % (xe("i-1", "j"), xe("i-1", "j"), el("du", "i-1"), xe("i", "j"), el("d", "i-1")))
    tm = TM if sync else []
    tv = team if sync else "VTeam t{0,1,0,1}; "
    g, b_ = (SINGLE, BAR) if sync else ("", "")
    mine = "for(int j=tid;j<m;j+=nthr) " if sync else "for(int j=0;j<m;++j) "
    own = "{ int j=x_mine(0); " if sync else "for(int j=0;j<m;++j) { "
    d.e("team", "tm", "void", A + M + tm, tv + a1 + xm + "ekat::tridiag::thomas(t,a,b,c,v);", s + g + "{ " + fac + "} " + b_ + mine + col, "team thomas" + note)
    d.e("team", "b1", "void", A + M + tm, tv + a1 + xm + "ekat::tridiag::bfb(t,a,b,c,v);", s + g + "{ " + fac + "} " + b_ + own + col + " }", "bfb, one matrix" + note)
    # several matrices: each thread factorises and solves its own columns; a single column serves all
    pcol = ("{ for(int i=1;i<nrow;++i) { A_(dl,i)/=A_(d,i-1); A_(d,i)-=A_(dl,i)*A_(du,i-1); } for(int i=1;i<nrow;++i) X_(i)-=A_(dl,i)*X_(i-1); X_(nrow-1)/=A_(d,nrow-1); "
            "for(int i=nrow-1;i>0;--i) X_(i-1)=(X_(i-1)-A_(du,i-1)*X_(i))/A_(d,i-1); }").replace("X_(i-1)", "x[(i-1)*(int)lx+j]").replace("X_(i)", "x[i*(int)lx+j]").replace("X_(nrow-1)", "x[(nrow-1)*(int)lx+j]")
    pcol = re.sub(r"A_\((\w+),([^)]*)\)", r"\1[(\2)*(int)la+j]", pcol)
    d.e("team", "bm", "void", A + M + tm, tv + am + xm + "ekat::tridiag::bfb(t,a,b,c,v);", s + own + pcol + " }", "bfb, several matrices" + note)
    sh = lambda q: q.replace("(int)m0+1", "(int)m0+2")
    d.e("team", "bs", "void", A + M + tm, tv + sh(dim) + "VU<PD**> a(dl,nr,1), b(d,nr,1), c(du,nr,1); " + xm + "ekat::tridiag::bfb(t,a,b,c,v);", sh(s) + g + "{ " + fac + "} " + b_ + own + col + " }", "bfb, a matrix of one column for several right-hand sides" + note)
    if True:
        # cyclic reduction: what the thread (or the only thread) does in each sweep
        ids = "const int ts= m<nthr?m:nthr, nt=nthr/ts, id=tid/ts, jt=tid%ts; (void)id; (void)jt; (void)nt; " if sync else "const int ts=1, nt=1, id=0, jt=0; (void)ts; "
        lead = "tid%ts==0" if sync else "true"
        id1 = "const int nt=nthr, id=tid; " if sync else "const int nt=1, id=0; "
        cols = "for(int j=jt;j<m;j+=ts) "
        run = "if(id<nt) " if sync else ""

        def cr(kind, order="abdx"):
            """kind: '1' vector data, 'm' one matrix and several columns, 'mm' a matrix per column"""
            a = (lambda v, i: "%s[(%s)*(int)la+j]" % (v, i)) if kind == "mm" else (lambda v, i: "%s[%s]" % (v, i))
            X_ = (lambda i: "x[%s]" % i) if kind == "1" else (lambda i: "x[(%s)*(int)lx+j]" % i)
            c = "" if kind == "1" else cols
            bnd = "int im=i-os, ip=i+os; const bool lo=im>=0, hi=ip<nrow; "
            fs = "const PD f1= lo ? -%s/%s : 0; const PD f2= hi ? -%s/%s : 0; " % (a("dl", "i"), a("d", "im"), a("du", "i"), a("d", "ip"))
            # a neighbour that does not exist contributes nothing
            nb = "im= lo?im:i; ip= hi?ip:i; "
            part = dict(a="%s=f1*%s; " % (a("dl", "i"), a("dl", "im")), b="%s=f2*%s; " % (a("du", "i"), a("du", "ip")),
                        d="%s+=f1*%s+f2*%s; " % (a("d", "i"), a("du", "im"), a("dl", "ip")), x="%s+=f1*%s+f2*%s; " % (X_("i"), X_("im"), X_("ip")))
            every = "".join(part[q] for q in order)
            upd, ux = "".join(part[q] for q in order if q != "x"), part["x"]
            rows = "for(int i=2*os*id;i<nrow;i+=2*os*nt) "
            o = (id1 if kind == "1" else ids) + "int os=1; for(;2*os<nrow;os*=2) { "
            if kind == "1":
                o += rows + "{ " + bnd + fs + nb + every + "} "
            elif kind == "mm":
                o += run + rows + "{ " + bnd + nb + c + "{ const PD f1= lo ? -%s/%s : 0; const PD f2= hi ? -%s/%s : 0; " % (a("dl", "i"), a("d", "im"), a("du", "i"), a("d", "ip")) + every + "} } "
            else:
                # every team makes the same number of passes; the matrix row changes once the columns are done
                o += ("const int inc=2*os*nt, passes=(nrow+inc-1)/inc; int i=2*os*id; for(int k=0;k<passes;++k,i+=inc) { int im=i-os, ip=i+os; PD f1=0, f2=0; const bool on= id<nt && i<nrow; "
                      "if(on) { const bool lo=im>=0, hi=ip<nrow; f1= lo ? -dl[i]/d[im] : 0; f2= hi ? -du[i]/d[ip] : 0; " + nb + c + ux + "} " + b_ + "if(" + lead + " && on) { " + upd + "} } ")
            o += b_ + "} "
            one_ = c + "%s/=%s; " % (X_("0"), a("d", "0"))
            two = c + "{ const auto det=%s*%s-%s*%s; const auto x0=%s, x1=%s; %s=(%s*x0-%s*x1)/det; %s=(%s*x1-%s*x0)/det; } " % (
                a("d", "0"), a("d", "os"), a("du", "0"), a("dl", "os"), X_("0"), X_("os"), X_("0"), a("d", "os"), a("du", "0"), X_("os"), a("d", "0"), a("dl", "os"))
            o += "if(id==0) { if(os>=nrow) { " + one_ + "} else { " + two + "} } " + b_
            o += "os>>=1; while(os) { " + ("" if kind == "1" else run) + "for(int i=2*os*id+os;i<nrow;i+=2*os*nt) { const int im=i-os, ip=i+os; "
            o += c + "{ decltype(PD()*PX()) f=0; f+= im>=0 ? %s*%s : 0; f+= ip<nrow ? %s*%s : 0; %s=(%s-f)/%s; } } os>>=1; " % (a("dl", "i"), X_("im"), a("du", "i"), X_("ip"), X_("i"), X_("i"), a("d", "i")) + b_ + "} "
            return s + o
        for kind, mk, prm, what in (("1", "VU<PD*> a(dl,nr), b(d,nr), c(du,nr); VU<PX*> v(x,nr); ", A, "one right-hand side"), ("m", a1 + xm, A + M, "several right-hand sides"), ("mm", am + xm, A + M, "several matrices")):
            if kind != "1" and not sync:
                continue
            pre = tv + (dim1 if kind == "1" else "") + mk
            r = cr(kind)
            if kind == "1":
                r = r.replace(dim, dim1)
            d.e("cyclic", "cr" + kind, "void", prm + tm, pre + "ekat::tridiag::cr(t,a,b,c,v);", r, "cyclic reduction, %s" % what + note)
            # a row's four quantities may be replaced in any order in which d still sees its neighbours' old du and dl
            for q in ("xdab", "dxab", "abxd", "xabd", "dabx"):
                o = cr(kind, q) if kind != "1" else cr(kind, q).replace(dim, dim1)
                for down in ("os*=2", "os<<=1"):
                    for two in ("2*os", "(os<<1)"):
                        d.alt("cr" + kind, o.replace("2*os", two).replace("os*=2", down))
            # the same with the powers of two spelled as products, shifts and quotients
            for down in ("os*=2", "os<<=1", "os=2*os", "os=os+os"):
                for up in ("os>>=1", "os/=2"):
                    for two in ("2*os", "(os<<1)"):
                        if (down, up, two) != ("os*=2", "os>>=1", "2*os"):
                            d.alt("cr" + kind, r.replace("2*os", two).replace("os*=2", down).replace("os>>=1", up))
    return d


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality with the textbook elimination, per thread")
    combos = [("double", "double", 1, 0), ("float", "double", 1, 0), ("double", "double", 2, 0), ("double", "double", 2, 1)]
    if tier == "thorough":
        combos += [("double", "float", 1, 0), ("float", "float", 4, 0), ("float", "float", 3, 1)]
    jobs = [(D, X, n, sync, o, x) for D, X, n, x in combos for sync in (0, 1) for o in (0, 1, 2)]

    def one(j):
        D, X, n, sync, o, x = j
        sub = Report(pid, tier, "")
        try:
            td(sub, j)
        except ToolError as e:
            if not x and D == X:
                raise
            # data of another type than the matrix is supported: not accepting it is a violation
            m = re.search(r"(\S*ekat_tridiag\.hpp:\d+)", str(e))
            sub.bad("accepts", m.group(1) if m else "ekat_tridiag.hpp", "[%s/%s] the solvers compile when the data has another type than the matrix: %s" % (D, X, (re.findall(r"error: (.*)", str(e)) or [str(e)])[0][:200]))
        return sub

    def td(sub, j):
        D, X, n, sync, o, x = j
        run_pairs(sub, "td_%s_%s%d%d%d%d" % j, drv(D, X, n, sync, o, x), flags(True, kk4=True, defs=["VSYNC"] if sync else []), opaque=["^x_"], extra=["--no-pre", "--exact-unroll"], pure=["^x_mine$", "^x_alloc$"], opts=dict(transparent_trunc=True, nowrap=True, posdiv=True))
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(thomas=120, team=300, cyclic=400).items():
        rep.need(r, k)
    rep.assumptions += ["at least one right-hand side", "index arithmetic does not wrap and only non-negative integers are divided or shifted", "the arrays of matrix and data do not overlap",
                        "the per-thread specification itself is free of races: between two barriers no thread reads or writes an element another thread writes"]
    return rep.finish("thomas (3 formats), team thomas and bfb (3 formats) and cr (3 formats) are analysed for one row, two rows and any larger number of rows; in the team forms thread rank and team size are symbolic, and memory after a barrier is unknown, so a moved or missing barrier changes the value.")
