"""P08: ViewBroadcast reads the source element with the broadcast dimensions dropped."""
import itertools
from pairs import *
from views import PRE, lin


RANKS = (1, 2, 3, 4, 5, 6, 7, 8)


def drv(T, debug):
    d = Drv(PRE + "namespace { using T=%s; }\n" % T)
    for R in RANKS:
        for f in range(1, min(R, 4) + 1):
            if debug and R > 3:
                continue
            for S in itertools.combinations(range(R), f):
                if R > 5 and S not in (tuple(range(f)), tuple(range(R - f, R)), tuple(range(0, R, 2))[:f], tuple(range(R - 1 - 2 * (f - 1), R, 2))):
                    continue
                tag = "%d_%s" % (R, "".join(map(str, S)))
                src = ["e%d" % k for k in range(f)]
                ext = [("-1" if k % 2 else "0") if k in S else "(int)n%d+1" % k for k in range(R)]
                ps = [("T* RS", "p")] + [("unsigned short", e) for e in src] + [("unsigned short", "n%d" % k) for k in range(R) if k not in S]
                mk = "VU<T%s> v(p,%s); " % ("*" * f, ",".join(src))
                call = "std::vector<int> ex(%d); %s auto b=ekat::broadcast<VU<T%s>>(v,ex);" % (R, " ".join("ex[%d]=%s;" % x for x in enumerate(ext)), "*" * R)
                ix = [("u", "i%d" % k) for k in range(R)]
                what = "broadcast of rank %d to rank %d keeping dimensions %s" % (f, R, list(S))
                addr = lin(["i%d" % k for k in S], src)
                if debug:
                    d.e("extent", "xg" + tag, "void", ps + [("int", "i")], mk + call + "(void)b.extent(i);",
                        "if(!(i>=0 && i<%d)) Kokkos::abort(\"\");" % R, what + ": extent(i) in Debug rejects exactly the invalid i")
                    continue
                d.e("element", "a" + tag, "T*", ps + ix, mk + call + "return &b(%s);" % ",".join(i for _, i in ix), "return p+%s;" % addr, what + ": address of an element")
                if R <= 2:
                    d.e("element", "s" + tag, "T*", ps + ix, mk + "std::vector<int> ex{%s}; ekat::ViewBroadcast<VU<T%s>> b; b.setup(v,ex); return &b(%s);" % (",".join(ext), "*" * R, ",".join("(int)" + i for _, i in ix)), "return p+%s;" % addr, what + " (setup): address of an element")
                for k in range(R):
                    d.e("extent", "x%s_%d" % (tag, k), "int", ps, mk + call + "return b.extent(%d);" % k, "return %s;" % ("(int)" + src[S.index(k)] if k in S else "(int)n%d+1" % k), what + ": extent %d" % k)
    if not debug:
        # strided sources
        ps = [("T* RS", "p"), ("unsigned short", "e0"), ("unsigned short", "e1"), ("unsigned short", "c"), ("unsigned short", "n")]
        d.e("strided", "col", "T*", ps + [("u", "i"), ("u", "j")], "VU<T**> w(p,e0,e1); auto v=ekat::subview_1(w,(int)c); std::vector<int> ex{-1,(int)n+1}; auto b=ekat::broadcast<VU<T**>>(v,ex); return &b(i,j);", "return p+(i*e1+c);", "broadcast of a strided rank-1 view (a column): address of an element")
        ps = [("T* RS", "p"), ("unsigned short", "e0"), ("unsigned short", "q"), ("unsigned short", "e1"), ("unsigned short", "c"), ("unsigned short", "n")]
        d.e("strided", "pad", "T*", ps + [("u", "i"), ("u", "j"), ("u", "k")], "VU<T***> w(p,e0,q,e1); auto v=ekat::subview_1(w,(int)c); std::vector<int> ex{-1,-1,(int)n+1}; auto b=ekat::broadcast<VU<T***>>(v,ex); return &b(i,j,k);", "return p+((i*q+c)*e1+j);", "broadcast of a rank-2 view with padded rows: address of an element")
        # rejections: number of open dimensions, length of the list
        for R, f in ((1, 1), (2, 1), (2, 2), (3, 2)):
            src = ["e%d" % k for k in range(f)]
            for ln in (R - 1, R, R + 1):
                if ln < 1:
                    continue
                ps = [("T* RS", "p")] + [("unsigned short", e) for e in src] + [("int", "x%d" % k) for k in range(ln)]
                mk = "VU<T%s> v(p,%s); std::vector<int> ex{%s}; auto b=ekat::broadcast<VU<T%s>>(v,ex); (void)b;" % ("*" * f, ",".join(src), ",".join("x%d" % k for k in range(ln)), "*" * R)
                bad = "1" if ln != R else "(%s)!=%d" % ("+".join("(x%d<=0)" % k for k in range(ln)), f)
                d.e("reject", "r%d%d%d" % (R, f, ln), "void", ps, mk, "if(%s) std::abort();" % bad, "broadcast of rank %d to rank %d with %d extents rejects exactly the wrong lists" % (f, R, ln))
    return d


def check(pid, tier):
    rep = Report(pid, tier, "symbolic address and extent equality with the index formula; rejection conditions compared")
    jobs = [("double", False), ("double", True)] + ([("int", False)] if tier == "thorough" else [])

    def one(j):
        T, dbg = j
        sub = Report(pid, tier, "")
        run_pairs(sub, "bc_%s_%d" % (T, dbg), drv(T, dbg), flags(not dbg, kk4=True), note=" [%s%s]" % (T, ", Debug" if dbg else ""), opaque=[r"^std::__throw", r"^std::__cxx11", r"^std::(basic_)?o", r"^operator new", r"^operator delete"], fail=[r"^void ekat::throw_exception<"], opts=dict(transparent_trunc=True, nowrap=not dbg))
        return sub
    for s in pmap(one, jobs):
        rep.merge(s)
    for r, k in dict(element=20, extent=40, reject=6).items():
        rep.need(r, k)
    rep.assumptions += ["index arithmetic does not wrap"]
    return rep.finish("value-graph comparison, for every pair of ranks and dimension set, of the element a broadcast view returns with the element of the source view the map designates; registration rules checked on the rejected cases")
