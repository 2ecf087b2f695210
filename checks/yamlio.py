"""P28: reading and writing YAML files. Documents are trees of plain structures (shim/yaml) whose scalars are
strings of a given length with unknown characters; what a text means as a number is a function of the text."""
from pairs import *
from common import REPO, ToolError
import charstr, os, re
from vg import N
from strs import low8, CLASS

G1 = lambda nm: {"as": nm, "model": lambda F, m, a: F.G.lift(lambda s: F.G.mk("call", nm, N(s)), [charstr.at(F, m, a[0])])}


def pred(nm):
    def f(F, m, a):
        return F.G.lift(lambda s: F.tobool(F.G.mk("call", nm, N(s))), [charstr.at(F, m, a[0])])
    return {"as": nm, "model": f}


def case(up):
    """toupper, tolower: of the letters of the C locale"""
    def f(F, m, a):
        G, r = F.G, a[0]
        x = G.lift(lambda y: low8(G, y), [a[0]])
        for i in range(26):
            u, l = (65 + i, 97 + i)
            r = G.ite(F.cmp("eq", x, G.const(l if up else u)), G.const(u if up else l), r)
        return r
    return {"as": "toupper" if up else "tolower", "model": f}


def puts(tag):
    return {"out": {0: charstr.W}, 0: charstr.W, "outargs": True, "as": "put", "model": lambda F, m, a: charstr.out(F, charstr.cat(F, charstr.at(F, m, a[0]), F.G.lift(lambda y: F.G.mk("chv", N(F.G.mk("printed", tag, N(y)))), [a[1]])))}


MODEL = dict(charstr.M)
for n in ("numfail", "numeof", "subnormal", "intfail", "inteof", "isopen"):
    MODEL["^x_%s$" % n] = pred(n)
for n in ("todouble", "toint"):
    MODEL["^x_%s$" % n] = G1(n)
MODEL["^toupper$"], MODEL["^tolower$"] = case(True), case(False)
MODEL.update(CLASS)
MODEL["^x_puti$"] = puts("i")
MODEL["^x_putd$"] = puts("d")
OPTS = dict(distinct=True, charbits="const", ldstr=charstr.ldstr, liftmax=20000)


def guard(h):
    m = re.search(r"#\s*ifndef\s+(\w+)", open(os.path.join(REPO, h)).read())
    if not m:
        raise ToolError("no include guard in " + h)
    return m.group(1)


def pre():
    return "#define %s\n#include \"yaml/pre.hpp\"\n" % guard("src/core/ekat_parameter_list.hpp")


def hexed(s):
    return re.sub(r"\W", lambda m: "%02x" % ord(m.group()), s)


def scalars():
    d = Drv(pre())
    P = [("S* RS", "r"), ("char* RS", "a")]
    for tag, kinds in (("?", "bids"), ("!", "s"), ("!!str", "s"), ("!!int", "i"), ("!!bool", "b"), ("!!float", "d"), ("tag:yaml.org,2002:int", "i"), ("tag:yaml.org,2002:bool", "b"), ("tag:yaml.org,2002:float", "d"), ("tag:yaml.org,2002:str", "s"), ("!!foo", "")):
        for n in ((0, 1, 2, 3, 4, 5) if tag == "?" else (0, 2, 4, 5) if tag[:2] == "!!" else (2, 4)):
            doc = "static const XN e[1]={{YNT::Scalar,IN(1),IN(0),nullptr,0,\"k\"}}; const S& x=in(0,a,%d); in(1,\"%s\"); " % (n, tag)
            ref = "".join({"b": "if(x_isbool(x)) p.set<bool>(k,x.size()==4); else ", "i": "if(x_isint(x)) p.set<int>(k,x_toint(&x)); else ", "d": "if(x_isdouble(x)) p.set<double>(k,x_todouble(&x)); else ", "s": "if(true) p.set<S>(k,x); else "}[c] for c in kinds) + "die(); "
            d.e("scalar", "sc%s%d" % (hexed(tag), n), "void", P, doc + "static const XN root={YNT::Map,IN(1),nullptr,e,1,nullptr}; load(&root,r);",
                doc + "start(); PL p(S(\"l\")); const S k(\"k\"); " + ref + "dump(p,r);", "a scalar of %d characters with tag %s" % (n, tag))
    return d


VAL = "auto val=[](PL& p, const char* n, const S& x) { const S k(n); if(x_isbool(x)) p.set<bool>(k,x.size()==4); else if(x_isint(x)) p.set<int>(k,x_toint(&x)); else if(x_isdouble(x)) p.set<double>(k,x_todouble(&x)); else p.set<S>(k,x); }; "
SEQ = """template<class... A> inline void seq(PL& p, const char* n, const A&... x) {
  const S k(n); if(sizeof...(x)==0) { p.set<PL::EmptySeq>(k,PL::EmptySeq()); return; }
  const S* v[]={&x...,nullptr}; constexpr int m=sizeof...(x); bool b=true, i=true, d=true;
  for(int j=0; j<m; ++j) { if(!x_isbool(*v[j])) b=false; if(!x_isint(*v[j])) i=false; if(!x_isdouble(*v[j])) d=false; }
  if(b) { std::x_vector<char> w(m); for(int j=0; j<m; ++j) w[j]=v[j]->size()==4; p.set(k,w); }
  else if(i) { std::x_vector<int> w(m); for(int j=0; j<m; ++j) w[j]=x_toint(v[j]); p.set(k,w); }
  else if(d) { std::x_vector<double> w(m); for(int j=0; j<m; ++j) w[j]=x_todouble(v[j]); p.set(k,w); }
  else { std::x_vector<S> w(m); for(int j=0; j<m; ++j) w[j]=*v[j]; p.set(k,w); }
}
"""


def sequences():
    d = Drv(pre() + "namespace {\n" + SEQ + "}\n")
    P = [("S* RS", "r"), ("char* RS", "a"), ("char* RS", "b"), ("char* RS", "c")]
    for ls in ((), (1,), (2,), (4,), (5,), (1, 1), (2, 1), (4, 5), (4, 1), (1, 4), (4, 4), (1, 1, 1), (4, 4, 1)):
        m = len(ls)
        doc = "in(7,\"?\"); " + "".join("in(%d,%s,%d); " % (i, "abc"[i], l) for i, l in enumerate(ls))
        nodes = "static const XN s[]={%s}; static const XN e[1]={{YNT::Sequence,IN(7),nullptr,s,%d,\"k\"}}; static const XN root={YNT::Map,IN(7),nullptr,e,1,nullptr}; " % (",".join("{YNT::Scalar,IN(7),IN(%d),nullptr,0,nullptr}" % i for i in range(max(m, 1))), m)
        d.e("sequence", "sq" + "".join(map(str, ls)), "void", P, doc + nodes + "load(&root,r);",
            doc + "start(); PL p(S(\"l\")); seq(p,\"k\"" + "".join(",*IN(%d)" % i for i in range(m)) + "); dump(p,r);", "a sequence of %d entries of %s characters" % (m, ",".join(map(str, ls)) or "no"))
    return d


def maps():
    d = Drv(pre() + "namespace {\n" + SEQ + "}\n")
    P = [("S* RS", "r"), ("char* RS", "a"), ("char* RS", "b")]
    doc = "in(7,\"?\"); in(0,a,1); in(1,b,1); "
    SC = lambda i, k: "{YNT::Scalar,IN(7),IN(%d),nullptr,0,\"%s\"}" % (i, k)
    for nm, nodes, ref in (
        ("none", "static const XN e[1]={}; static const XN root={YNT::Map,IN(7),nullptr,e,0,nullptr}; ", ""),
        ("two", "static const XN e[2]={%s,%s}; static const XN root={YNT::Map,IN(7),nullptr,e,2,nullptr}; " % (SC(0, "k"), SC(1, "m")), "val(p,\"k\",*IN(0)); val(p,\"m\",*IN(1)); "),
        ("sub", "static const XN f[1]={%s}; static const XN e[2]={{YNT::Map,IN(7),nullptr,f,1,\"g\"},%s}; static const XN root={YNT::Map,IN(7),nullptr,e,2,nullptr}; " % (SC(0, "k"), SC(1, "m")), "PL& g=p.sublist(S(\"g\")); val(g,\"k\",*IN(0)); val(p,\"m\",*IN(1)); "),
        ("empty", "static const XN f[1]={}; static const XN e[2]={%s,{YNT::Map,IN(7),nullptr,f,0,\"g\"}}; static const XN root={YNT::Map,IN(7),nullptr,e,2,nullptr}; " % SC(0, "k"), "val(p,\"k\",*IN(0)); p.sublist(S(\"g\")); "),
        ("seqs", "static const XN s[2]={%s,%s}; static const XN f[1]={{YNT::Sequence,IN(7),nullptr,s,2,\"v\"}}; static const XN e[1]={{YNT::Map,IN(7),nullptr,f,1,\"g\"}}; static const XN root={YNT::Map,IN(7),nullptr,e,1,nullptr}; " % (SC(0, ""), SC(1, "")), "PL& g=p.sublist(S(\"g\")); seq(g,\"v\",*IN(0),*IN(1)); "),
        ("deep", "static const XN h[1]={%s}; static const XN f[2]={{YNT::Map,IN(7),nullptr,h,1,\"h\"},%s}; static const XN e[1]={{YNT::Map,IN(7),nullptr,f,2,\"g\"}}; static const XN root={YNT::Map,IN(7),nullptr,e,1,nullptr}; " % (SC(0, "k"), SC(1, "m")), "PL& g=p.sublist(S(\"g\")); PL& h=g.sublist(S(\"h\")); val(h,\"k\",*IN(0)); val(g,\"m\",*IN(1)); "),
        ("twin", "static const XN f[1]={%s}; static const XN h[1]={%s}; static const XN e[2]={{YNT::Map,IN(7),nullptr,f,1,\"g\"},{YNT::Map,IN(7),nullptr,h,1,\"h\"}}; static const XN root={YNT::Map,IN(7),nullptr,e,2,nullptr}; " % (SC(0, "k"), SC(1, "k")), "PL& g=p.sublist(S(\"g\")); val(g,\"k\",*IN(0)); PL& h=p.sublist(S(\"h\")); val(h,\"k\",*IN(1)); "),
        ("self", "static const XN f[1]={%s}; static const XN e[1]={{YNT::Map,IN(7),nullptr,f,1,\"l\"}}; static const XN root={YNT::Map,IN(7),nullptr,e,1,nullptr}; " % SC(0, "k"), "PL& g=p.sublist(S(\"l\")); val(g,\"k\",*IN(0)); "),
        ("bad", "static const XN root={YNT::Scalar,IN(7),IN(0),nullptr,0,nullptr}; ", "die(); "),
    ):
        d.e("map", "mp" + nm, "void", P, doc + nodes + "load(&root,r);", doc + "start(); PL p(S(\"l\")); " + VAL + ref + "dump(p,r);", "a map (%s)" % nm)
    d.e("map", "mp1", "void", P, doc + "static const XN e[2]={%s,%s}; static const XN root={YNT::Map,IN(7),nullptr,e,2,nullptr}; load1(&root,r);" % (SC(0, "k"), SC(1, "m")), doc + "start(); PL p; " + VAL + "val(p,\"k\",*IN(0)); val(p,\"m\",*IN(1)); dump(p,r);", "a map, into a new list")
    return d


SHAPES = [("7", 3, ""), ("-7", 3, "e+20"), ("7", 2, "e-10"), ("7", 1, "e+100"), ("0", 4, ""), ("-777", 1, ""), ("7", 3, "e+05"), ("70", 2, "")]


def writes():
    d = Drv(pre())
    P = [("S* RS", "r")]
    slot = lambda k, c, i: "{\"%s\",'%s',IN(%d),nullptr,0}" % (k, c, i)
    save = lambda *sl: "const x_slot sl[]={%s}; save(sl,%d,r);" % (",".join(sl) or "{nullptr,0,nullptr,nullptr,0}", len(sl))
    for n in range(6):
        doc = "const S& v=in(0,a,%d); " % n
        d.e("write", "ws%d" % n, "void", P + [("char* RS", "a")], doc + save(slot("k", "s", 0)), doc + "head(r); key(r,\"k\"); *r+=\"<s\"; *r+=v; *r+='>'; foot(r);", "a string of %d characters" % n)
    K = [("const int* RS", "k")]
    put = lambda ty, i, v: "::new((void*)IN(%d)) %s(%s); " % (i, ty, v)
    KEY = "key(r,\"%s\"); "
    d.e("write", "wi", "void", P + K, put("int", 0, "k[0]") + save(slot("k", "i", 0)), "head(r); " + KEY % "k" + "*r+=\"<i\"; x_puti(r,k[0]); *r+='>'; foot(r);", "an int")
    TF = "*r += (%s) ? S(\"true\") : S(\"false\"); *r+='>'; "
    d.e("write", "wb", "void", P + K, put("bool", 0, "k[0]==7") + save(slot("k", "b", 0)), "head(r); " + KEY % "k" + "*r+=\"<b\"; " + TF % "k[0]==7" + "foot(r);", "a bool")
    X = K + [("double", "x")]
    num = lambda h, n, e: "char dg[]={%s}; shape((S*)IN(5),\"%s\",dg,%d,\"%s\",true); shape((S*)IN(6),\"%s\",dg,%d,\"%s\",false); " % (",".join("k[%d]==7 ? '7' : '0'" % i for i in range(n)), h, n, e, h, n, e)
    for m, (h, n, e) in enumerate(SHAPES):
        text = "S t; shown(&t,\"%s\",dg,%d,\"%s\"); " % (h, n, e)
        what = "a number printed as %s.%s%s" % (h, "#" * n, e)
        d.e("write", "wd%d" % m, "void", P + X, num(h, n, e) + put("double", 0, "x") + "const x_slot sl[]={%s}; save(sl,1,r,true);" % slot("k", "d", 0), num(h, n, e) + text + "head(r); " + KEY % "k" + "*r+='<'; *r+=x_kind(t); *r+=t; *r+='>'; foot(r);", what)
        if m % 3 == 0:
            for c in (1, 2):
                d.e("write", "wv%d%d" % (m, c), "void", P + X, num(h, n, e) + "std::x_vector<double> v(%d,x); x_slot s[]={{\"k\",'D',&v,nullptr,0}}; save(s,1,r,true);" % c, num(h, n, e) + text + "head(r); " + KEY % "k" + "*r+='['; " + "*r+=\"<.\"; *r+=t; *r+='>'; " * c + "*r+=']'; foot(r);", what + ", %d times in a sequence" % c)
    vec = "x_slot s[]={{\"k\",'%s',&v,nullptr,0}}; save(s,1,r);"
    seq = lambda *t: "head(r); " + KEY % "k" + "*r+='['; " + "".join("*r+=\"<.\"; " + x for x in t) + "*r+=']'; foot(r);"
    for c in range(4):
        d.e("write", "wvi%d" % c, "void", P + K, "start(); std::x_vector<int> v(%d); %s" % (c, "".join("v[%d]=k[%d]; " % (i, i) for i in range(c))) + vec % "I", seq(*("x_puti(r,k[%d]); *r+='>'; " % i for i in range(c))), "a sequence of %d ints" % c)
    for c in range(3):
        d.e("write", "wvc%d" % c, "void", P + K, "start(); std::x_vector<char> v(%d); %s" % (c, "".join("v[%d]=k[%d]==7; " % (i, i) for i in range(c))) + vec % "C", seq(*(TF % ("k[%d]==7" % i) for i in range(c))), "a sequence of %d bools" % c)
        A = [("char* RS", "abc"[i]) for i in range(c)]
        d.e("write", "wvs%d" % c, "void", P + A, "struct U { alignas(8) char b[sizeof(std::x_vector<S>)]; } u; auto& v=*(std::x_vector<S>*)u.b; v.d.s=(S*)IN(0); v.n=%d; %s" % (c, "".join("in(%d,%s,%d); " % (i, "abc"[i], i + 1) for i in range(c))) + vec % "S", "".join("in(%d,%s,%d); " % (i, "abc"[i], i + 1) for i in range(c)) + seq(*("*r+=*IN(%d); *r+='>'; " % i for i in range(c))), "a sequence of %d strings" % c)
    d.e("write", "wve", "void", P, save(slot("k", "E", 0)), seq(), "an empty sequence")
    d.e("write", "wbad", "void", P + K, put("int", 0, "k[0]") + save(slot("k", "i", 0), slot("m", "f", 0)), "die();", "a value of another type")
    INT = "*r+=\"<i\"; x_puti(r,k[%d]); *r+='>'; "
    two = put("int", 0, "k[0]") + put("int", 1, "k[1]")
    d.e("write", "w0", "void", P, save(), "head(r); foot(r);", "an empty list")
    d.e("write", "w2", "void", P + K, two + save(slot("k", "i", 0), slot("m", "i", 1)), "head(r); " + KEY % "k" + INT % 0 + KEY % "m" + INT % 1 + "foot(r);", "two values")
    d.e("write", "wsub", "void", P + K, two + "const x_slot in[]={%s}; const x_slot sl[]={{\"g\",'L',nullptr,in,1},%s}; save(sl,2,r);" % (slot("k", "i", 0), slot("m", "i", 1)), "head(r); " + KEY % "m" + INT % 1 + KEY % "g" + "*r+='{'; " + KEY % "k" + INT % 0 + "*r+='}'; foot(r);", "a list in a list")
    d.e("write", "wempty", "void", P + K, two + "const x_slot sl[]={%s,{\"g\",'L',nullptr,nullptr,0}}; save(sl,2,r);" % slot("k", "i", 0), "head(r); " + KEY % "k" + INT % 0 + KEY % "g" + "*r+=\"{}\"; foot(r);", "an empty list in a list")
    d.e("write", "wnest", "void", P + K, two + "const x_slot h[]={%s}; const x_slot in[]={{\"h\",'L',nullptr,h,1}}; const x_slot sl[]={{\"g\",'L',nullptr,in,1}}; save(sl,1,r);" % slot("k", "i", 0), "head(r); " + KEY % "g" + "*r+='{'; " + KEY % "h" + "*r+='{'; " + KEY % "k" + INT % 0 + "*r+=\"}}\"; foot(r);", "a list in a list in a list")
    return d


def part(x):
    k, tier = x
    rep = Report("P28", tier, "")
    fl = flags(False, mpi=False, kokkos=False, incs=[VERIF + "/shim/yaml", VERIF + "/shim"]) + ["-fno-access-control", "-I" + REPO + "/src/parser"]
    run_pairs(rep, k, globals()[k](), fl, pureref=MODEL, fail=[r"^void ekat::throw_exception<"], opaque=["^std::__throw", "^printf$", "^puts$"], extra=["--bound=8", "--unfold=ekat::@3"], opts=OPTS)
    return rep


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of what is read from a document, or written for a list, with what the document or the list means, for every scalar of the given length and every number")
    for r in pmap(part, [(k, tier) for k in ("scalars", "sequences", "maps", "writes")]):
        rep.merge(r)
    for g, n in (("scalar", 20), ("sequence", 14), ("map", 10), ("write", 25)):
        rep.need(g, n)
    return rep.finish("documents and lists of bounded shape, scalars of up to 5 characters with unknown characters, numbers as functions of their text (double: of the shapes of its printed text)")
