"""P27: string utilities.

Strings of every length up to a bound with unknown characters; loops over characters unroll completely, so that
any way of writing them gives the same value graph."""
from pairs import *
from common import CLANG, REPO, scratch, ToolError
import charstr, os, re, subprocess
from vg import N

def low8(G, x):
    """the character a widened character came from"""
    k = G.keys[x]
    return k[-1].i if k[0] in ("sext", "zext", "cast") and isinstance(k[-1], N) else x


CASE = {"^toupper$": {"as": "toupper", "fold": lambda G, x: G.mk("toupper", N(low8(G, x[0])))}, "^tolower$": {"as": "tolower", "fold": lambda G, x: G.mk("tolower", N(low8(G, x[0])))}}


def ctype(vals):
    """a class of characters in the C locale"""
    def f(F, m, a):
        G = F.G

        def leaf(x):
            n, c = low8(G, x), G.is_const(x)
            if c is not None:
                return G.ONE if c % 256 in vals else G.ZERO
            if F.achar(n):
                return G.ite(F.charset(n, vals), G.ONE, G.ZERO)
            return G.mk("call", "ctype", tuple(sorted(vals)), N(n))
        return G.lift(leaf, [a[0]])
    return {"as": "ctype", "model": f}


_r = lambda s: frozenset(ord(c) for c in s)
_D, _L, _U = "0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
CLASS = {"^isdigit$": ctype(_r(_D)), "^isspace$": ctype(_r(" \t\n\v\f\r")), "^isalpha$": ctype(_r(_L + _U)), "^isalnum$": ctype(_r(_L + _U + _D)), "^isupper$": ctype(_r(_U)), "^islower$": ctype(_r(_L)), "^isblank$": ctype(_r(" \t")), "^isprint$": ctype(frozenset(range(32, 127)))}
PRE = r'''
#include <cstdlib>
#include <new>
#include <string>
#include <vector>
#include <list>
#include "ekat_string_utils.hpp"
#include "ekat_string_utils.cpp"
#define RS __restrict
extern "C" char x_scratch[16];     // (characters kept where nothing takes them for dead)
inline void die(){ std::abort(); }
using S=std::string; using CI=ekat::CaseInsensitiveString;
namespace {
struct V { alignas(S) char b[sizeof(S)]; S& operator*() { return *(S*)b; } V(char* a, size_t n) { auto* s=(S*)b; s->_M_dataplus._M_p=a; s->_M_string_length=n; } };
struct W { alignas(CI) char b[sizeof(CI)]; CI& operator*() { return *(CI*)b; } W(char* a, size_t n) { S* s=static_cast<S*>((CI*)b); s->_M_dataplus._M_p=a; s->_M_string_length=n; } };
}
'''


def nocase():
    d = Drv(PRE)
    up = lambda a, i: "toupper((unsigned char)%s[%d])" % (a, i)

    def less(n, m, eq):
        return "".join("if(%s<%s) return true; if(%s!=%s) return false; " % (up("a", i), up("b", i), up("a", i), up("b", i)) for i in range(min(n, m))) + "return %s;" % ("true" if (n <= m if eq else n < m) else "false")
    P = [("char* RS", "a"), ("char* RS", "b")]
    for n in range(4):
        for m in range(4):
            for fn, op in (("Equal", "=="), ("Less", "<"), ("LessEqual", "<="), ("", "!=")):
                for x, y in (("V", "V"), ("W", "V"), ("V", "W"), ("W", "W")):
                    if (x == y == "V") == (not fn) or (n + m > 4 and x + y != "VV"):
                        continue
                    t = "%s x(a,%d); %s y(b,%d); return %s;" % (x, n, y, m, "ekat::caseInsensitive%sString(*x,*y)" % fn if x + y == "VV" else "*x%s*y" % op)
                    eq = " && ".join("%s==%s" % (up("a", i), up("b", i)) for i in range(n)) or "true"
                    r = less(n, m, fn == "LessEqual") if fn.startswith("Less") else ("return %s;" % (eq if n == m else "false") if op == "==" else "return !(%s);" % (eq if n == m else "false"))
                    w = "%s%s %d and %d characters" % (("case insensitive " if x + y == "VV" else {"V": "string", "W": "CaseInsensitiveString"}[x] + " "), op + ("" if x + y == "VV" else " " + {"V": "string", "W": "CaseInsensitiveString"}[y] + ":"), n, m)
                    nm = "%s%s%s%d%d" % (fn or "Ne", x, y, n, m)
                    d.e("nocase", nm, "bool", P, t, r, w)
                    if n == m and fn in ("Equal", ""):
                        eq2 = " && ".join("(a[%d]==b[%d] || %s==%s)" % (i, i, up("a", i), up("b", i)) for i in range(n)) or "true"
                        d.alt(nm, "return %s(%s);" % ("" if fn else "!", eq2))
                        d.alt(nm, "return %s(%s);" % ("" if fn else "!", eq.replace("toupper", "tolower")))
    return d


def edit():
    d, e = Drv(PRE), Drv(PRE)
    P = [("char* RS", "a")]
    R = ("S* RS", "r")
    for n in range(5):
        for c in ("c", "' '"):
            nl = "size_t l=0, t=0; " + "".join("if(l==%d && a[%d]==%s) l=%d; " % (i, i, c, i + 1) for i in range(n)) + "".join("if(t==%d && a[%d]==%s) t=%d; " % (i, n - 1 - i, c, i + 1) for i in range(n))
            d.e("trim", "trim%d%s" % (n, "c" if c == "c" else "b"), "void", [R] + P + ([("char", "c")] if c == "c" else []), "V x(a,%d); new(r) S(ekat::trim(*x%s));" % (n, ",c" if c == "c" else ""),
                nl + "V x(a,%d); if(l==%d) new(r) S(); else { S t_((*x).substr(l,%d-l-t)); new(r) S(t_); }" % (n, n, n), "trim of %d characters" % n)
        for m in range(5):
            d.e("starts", "st%d%d" % (n, m), "bool", P + [("char* RS", "b")], "V x(a,%d), y(b,%d); return ekat::starts_with(*x,*y);" % (n, m), "return %s;" % ("false" if m > n else " && ".join("a[%d]==b[%d]" % (i, i) for i in range(m)) or "true"), "starts_with: %d and %d characters" % (n, m))
        if n not in (2, 4):     # copies of 2 or 4 characters become single words
            e.e("upper", "up%d" % n, "void", [("char* RS", "o"), ("long* RS", "s")] + P, "V x(a,%d); S u=ekat::upper_case(*x); *s=u.size(); %s" % (n, " ".join("o[%d]=u[%d];" % (i, i) for i in range(n))), "*s=%d; %s" % (n, " ".join("o[%d]=toupper((unsigned char)a[%d]);" % (i, i) for i in range(n))), "upper_case of %d characters" % n)
    return d, e


def tokens():
    d = Drv(PRE + "using VS=std::vector<S>;")
    for n in range(6):
        for m, c in ((1, True), (1, False), (2, False), (3, False)):
            if m == 3 and n < 3:
                continue
            P = [("VS* RS", "r"), ("char* RS", "a")] + ([("char", "c")] if c else [("char* RS", "b")])
            eq = lambda i: " && ".join("a[%d]==%s" % (i + j, "c" if c else "b[%d]" % j) for j in range(m))
            ref = "new(r) VS(); V x(a,%d); size_t st=0; " % n + "".join("if(st<=%d && %s) { r->push_back((*x).substr(st,%d-st)); st=%d; } " % (i, eq(i), i, i + m) for i in range(n - m + 1)) + "r->push_back((*x).substr(st,%d-st));" % n
            d.e("split", "split%d_%d%s" % (n, m, "c" if c else ""), "void", P, "V x(a,%d); %snew(r) VS(ekat::split(*x,%s));" % (n, "" if c else "V y(b,%d); " % m, "c" if c else "*y"), ref, "split of %d characters at a delimiter of %d%s" % (n, m, " (char)" if c else ""))
    for n in range(6):
        for c in ("c", "' '"):
            d.e("strip", "strip%d%s" % (n, "c" if c == "c" else "b"), "void", [("S* RS", "r"), ("char* RS", "a")] + ([("char", "c")] if c == "c" else []), "char* t=x_scratch; %s V x(t,%d); ekat::strip(*x,%s); new(r) S(*x);" % (" ".join("t[%d]=a[%d];" % (i, i) for i in range(n)), n, c), "new(r) S(); " + " ".join("if(a[%d]!=%s) r->push_back(a[%d]);" % (i, c, i) for i in range(n)), "strip of %d characters" % n)
    return d


def lists(part):
    d = Drv(PRE + r"""
inline bool namechar(char c) { S v("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-!@#$%^&*+=?"); return v.find(c)!=S::npos; }
struct K { // strings of characters of eight kinds
  char c[8];
  K(const unsigned* k, int n) { 
#pragma unroll
    for (int i=0; i<8; ++i) if (i<n) c[i] = (k[i]&1) ? ((k[i]&2) ? ((k[i]&4) ? '[' : ']') : ((k[i]&4) ? ',' : 'x')) : ((k[i]&2) ? ((k[i]&4) ? '(' : ')') : ((k[i]&4) ? ' ' : '<')); }
};
struct Q { // strings of characters of four kinds
  char c[12];
  Q(const unsigned* k, int n) {
#pragma unroll
    for (int i=0; i<12; ++i) if (i<n) c[i] = (k[i]&1) ? ((k[i]&2) ? '[' : ']') : ((k[i]&2) ? ',' : 'x');
  }
};
template<int N> inline bool nested(const char* a, char o, char c) {
  // what may come next: 0 an entry, 1 more of a name, 2 a comma or a close
  int depth=0, st=0; bool ok = N>0 && a[0]==o;
  if (N>0) depth=1;
  #pragma unroll
  for (int i=1; i<N; ++i) {
    if (depth==0) ok=false;
    if (a[i]==o) { if (st!=0) ok=false; ++depth; st=0; }
    else if (a[i]==c) { if (st==0) ok=false; --depth; st=2; }
    else if (a[i]==',') { if (st==0) ok=false; st=0; }
    else if (namechar(a[i])) { if (st==2) ok=false; st=1; }
    else ok=false;
  }
  return ok && depth==0;
}
""")
    ref = lambda n: "return " + " || ".join("nested<%d>(a,'%s','%s')" % (n, o, c) for o, c in ("()", "[]", "{}", "<>")) + ";"
    for n in {"vn": range(4), "vn4": (4,)}.get(part, ()):
        d.e("list", "vn%d" % n, "bool", [("char* RS", "a")], "V x(a,%d); return ekat::valid_nested_list_format(*x);" % n, ref(n), "valid_nested_list_format of %d characters" % n)
    for n in (7, 8) if part == "vq" else ():
        d.e("list", "vq%d" % n, "bool", [("unsigned* RS", "k")], "Q q(k,%d); V x(q.c,%d); return ekat::valid_nested_list_format(*x);" % (n, n), "Q q(k,%d); const char* a=q.c; return nested<%d>(a,'[',']');" % (n, n), "valid_nested_list_format of %d characters of four kinds" % n)
    for n in (5, 6) if part == "vk" else ():
        d.e("list", "vk%d" % n, "bool", [("unsigned* RS", "k")], "K q(k,%d); V x(q.c,%d); return ekat::valid_nested_list_format(*x);" % (n, n), "K q(k,%d); const char* a=q.c; " % n + ref(n), "valid_nested_list_format of %d characters of eight kinds" % n)
    return d


def joins():
    d = Drv(PRE + r"""
template<class T> struct A { alignas(std::vector<T>) char b[sizeof(std::vector<T>)]; std::vector<T>& operator*() { return *(std::vector<T>*)b; } A(T* a, size_t n) { auto* v=(std::vector<T>*)b; v->_M_impl._M_start=a; v->_M_impl._M_finish=v->_M_impl._M_end_of_storage=a+n; } };
""")
    P = [("S* RS", "r"), ("char* RS", "a"), ("char* RS", "b")]
    for n in range(4):
        d.e("join", "si%d" % n, "void", [("S* RS", "r"), ("char* RS", "a"), ("int", "i")], "V x(a,%d); new(r) S(ekat::strint(*x,i));" % n, "V x(a,%d); S n(std::to_string(i)); new(r) S(*x); *r+=' '; *r+=n;" % n, "strint of %d characters" % n)
        for m in range(3):
            d.e("join", "ji%d%d" % (n, m), "void", [("S* RS", "r"), ("int* RS", "k"), ("char* RS", "b")], "V y(b,%d); A<int> v(k,%d); new(r) S(ekat::join(*v,*y));" % (m, n),
                "V y(b,%d); new(r) S(); " % m + " ".join("%s{ S n(std::to_string(k[%d])); *r+=n; }" % ("*r+=*y; " if i else "", i) for i in range(n)), "join of %d numbers, separator of %d characters" % (n, m))
            d.e("join", "jf%d%d" % (n, m), "void", [("S* RS", "r"), ("int* RS", "k"), ("char* RS", "b")], "V y(b,%d); A<int> v(k,%d); new(r) S(ekat::join(*v,[](int x) { return 3*x+1; },*y));" % (m, n),
                "V y(b,%d); new(r) S(); " % m + " ".join("%s{ S n(std::to_string(3*k[%d]+1)); *r+=n; }" % ("*r+=*y; " if i else "", i) for i in range(n)), "join of a function of %d numbers, separator of %d characters" % (n, m))
    return d


def gather():
    d = Drv(PRE + "using LS=std::list<S>;\nstruct D { alignas(std::vector<char>) char b[sizeof(std::vector<char>)]; std::vector<char>& operator*() { return *(std::vector<char>*)b; } D(char* a, size_t n) { auto* v=(std::vector<char>*)b; v->_M_impl._M_start=a; v->_M_impl._M_finish=v->_M_impl._M_end_of_storage=a+n; } };\n")
    def scan(lo, hi, delim):
        return "st=%d; " % lo + "".join("if(%s) { if(%d>st) r->push_back(std::string((*x),st,%d-st)); st=%d; } " % (delim(i), i, i, i + 1) for i in range(lo, hi)) + "if(%d>st) r->push_back(std::string((*x),st,%d-st)); " % (hi, hi)
    for n in range(5):
        for k in (1, 2):
            d.e("gather", "ga%d%d" % (n, k), "void", [("LS* RS", "r"), ("char* RS", "a"), ("char* RS", "b")], "V x(a,%d); D e(b,%d); new(r) LS(ekat::gather_tokens(*x,*e));" % (n, k), "V x(a,%d); size_t st; new(r) LS(); " % n + scan(0, n, lambda i: "||".join("a[%d]==b[%d]" % (i, j) for j in range(k))), "gather_tokens of %d characters with %d delimiters" % (n, k))
    for at in ("a", "a_b"):
        for n in range(4):
            for m in range(4):
                if n + m > 4:
                    continue
                t = ["p%d" % i for i in range(n)] + (["'_'"] if n else []) + ["'%s'" % c for c in at] + (["'_'"] if m else []) + ["q%d" % i for i in range(m)]
                buf = "char b[]={'_'}; D e(b,1); char* t=x_scratch; %s V x(t,%d); " % (" ".join("t[%d]=%s;" % (i, ("(k[%d]==7 ? 'x' : '_')" % (int(c[1]) + (n if c[0] == "q" else 0))) if c[0] in "pq" else c) for i, c in enumerate(t)), len(t))
                lo = n + 1 if n else 0
                d.e("gather", "gt%s%d%d" % (at, n, m), "void", [("LS* RS", "r"), ("unsigned* RS", "k")], buf + 'std::string at("%s"); new(r) LS(ekat::gather_tokens(*x,*e,at));' % at,
                    buf + 'size_t st; std::string at("%s"); new(r) LS(); r->push_back(at); ' % at + (scan(0, n, lambda i: "t[%d]=='_'" % i) if n else "") + (scan(lo + len(at) + 1, len(t), lambda i: "t[%d]=='_'" % i) if m else ""), "gather_tokens: %s with %d characters before and %d after" % (at, n, m))
        # not delimited: an ordinary string
        for n, m in ((1, 0), (0, 1), (1, 1), (2, 1)):
            for lft, rgt in (("'x'", "'_'"), ("'_'", "'x'"), ("'x'", "'x'")):
                if lft == "'x'" and not n or rgt == "'x'" and not m or lft == rgt == "'_'":
                    continue
                t = ["p%d" % i for i in range(n)] + ([lft] if n else []) + ["'%s'" % c for c in at] + ([rgt] if m else []) + ["q%d" % i for i in range(m)]
                buf = "char b[]={'_'}; D e(b,1); char* t=x_scratch; %s V x(t,%d); " % (" ".join("t[%d]=%s;" % (i, ("(k[%d]==7 ? 'x' : '_')" % (int(c[1]) + (n if c[0] == "q" else 0))) if c[0] in "pq" else c) for i, c in enumerate(t)), len(t))
                d.e("gather", "gn%s%d%d%d" % (at, n, m, (lft + rgt).count("x") + 2 * (lft == "'x'")), "void", [("LS* RS", "r"), ("unsigned* RS", "k")], buf + 'std::string at("%s"); new(r) LS(ekat::gather_tokens(*x,*e,at));' % at,
                    buf + "size_t st; new(r) LS(); " + scan(0, len(t), lambda i: "t[%d]=='_'" % i), "gather_tokens: %s not delimited, %d characters before and %d after" % (at, n, m))
    return d


CHARS = dict(distinct=True, charbits="const", ldstr=charstr.ldstr, liftmax=20000)
LAZY = dict(CHARS, lazychars=True)


SINKS = re.compile(r"^(v?f?printf|puts|putchar|fputs|fputc|_?putc|fwrite|write|perror|std::(cout|cerr|clog|print|vprint_.*)|stdout|stderr)$")


def silent(rep, fl):
    """no function of the string utilities reaches the standard output"""
    d = scratch()
    src = os.path.join(REPO, "src/core/ekat_string_utils.cpp")
    ll = os.path.join(d, "su.ll")
    r = subprocess.run([CLANG] + [f for f in fl if not f.startswith("-O")] + ["-O0", "-g", "-S", "-emit-llvm", src, "-o", ll], capture_output=True, text=True)
    if r.returncode:
        raise ToolError("ekat_string_utils.cpp does not compile:\n" + r.stderr[:2000])
    text = open(ll).read()
    os.unlink(ll)
    names = sorted(set(re.findall(r"@([\w.$]+)", text)))
    dem = dict(zip(names, subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")))
    line = {m.group(1): int(m.group(2)) for m in re.finditer(r"^(!\d+) = !DILocation\(line: (\d+)", text, re.M)}
    refs, tops = {}, []
    for m in re.finditer(r"^define ([^@]*)@([\w.$]+)\(.*?\{\n(.*?)^\}", text, re.M | re.S):
        out = refs.setdefault(m.group(2), {})
        for l in m.group(3).split("\n"):
            g = re.search(r"!dbg (!\d+)", l)
            for n in re.findall(r"@([\w.$]+)", l):
                out.setdefault(n, line.get(g.group(1)) if g else None)
        if "linkonce" not in m.group(1) and "internal" not in m.group(1) and dem[m.group(2)].startswith("ekat::"):
            tops.append(m.group(2))
    for t in sorted(tops):
        seen, todo, hit = {t: None}, [t], None
        while todo and not hit:
            x = todo.pop(0)
            for n, ln in refs.get(x, {}).items():
                if SINKS.match(dem[n]):
                    p, c = [dem[n]], x
                    while c is not None:
                        p.append(re.sub(r"\(.*", "", dem[c]))
                        c = seen[c]
                    hit = (ln, " <- ".join(p))
                    break
                if n not in seen and n in refs and not dem[n].startswith("std::") and "throw_exception<" not in dem[n]:
                    seen[n] = x
                    todo.append(n)
        nm = re.sub(r"\(.*", "", re.sub(r"\[abi:\w+\]", "", dem[t]))
        if hit:
            rep.bad("silent", "%s:%s (%s)" % (src, hit[0], nm), "%s reaches the standard output: %s" % (nm, hit[1]), key="silent|" + nm)
        else:
            rep.ok("silent")


def part(x):
    k, tier = x
    rep = Report("P27", tier, "")
    fl = flags(False, mpi=False, kokkos=False) + ["-fno-access-control"]
    fail = [r"^void ekat::throw_exception<"]

    def run(name, d, **kw):
        run_pairs(rep, name, d, fl, **{**dict(pureref={**charstr.M, **CLASS}, fail=fail, opaque=["^std::__throw"], extra=["--bound=8"], opts=CHARS), **kw})
    if k == "nocase":
        run_pairs(rep, "nocase", nocase(), fl, pureref=CASE, fail=fail, opts=dict(distinct=True))
    elif k == "edit":
        d, e = edit()
        run_pairs(rep, "chars", e, fl + ["-D_GLIBCXX_ASSERTIONS"], pureref=CASE, fail=fail, opaque=["^std::__throw"], opts=dict(distinct=True))
        run("edit", d)
    elif k == "tokens":
        run("tokens", tokens())
    elif k == "joins":
        run("joins", joins())
    elif k == "gather":
        run("gather", gather(), extra=["--bound=8", "--unfold=^ekat::gather_tokens@3"])
    elif k == "silent":
        silent(rep, fl)
    else:
        run("lists" + k, lists(k), opts=LAZY)
    return rep


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of string utilities with their definition, per string length")
    for r in pmap(part, [(k, tier) for k in ("vn4", "vn", "vk", "vq", "gather", "joins", "tokens", "nocase", "edit", "silent")]):
        rep.merge(r)
    for g, n in (("nocase", 80), ("starts", 25), ("trim", 40), ("upper", 7), ("strip", 40), ("split", 60), ("gather", 60), ("join", 90), ("list", 8), ("silent", 12)):
        rep.need(g, n)
    return rep.finish("strings of up to 3-8 characters (by operation), every content; longer strings by the same loops are not analysed")
