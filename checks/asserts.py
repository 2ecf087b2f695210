"""P16: error-check macros evaluate the condition once and throw iff it is false."""
from common import *
from paths import Walk, Limit
import os

PRE = r'''
#include "ekat_assert.hpp"
#include <string>
#include <new>
extern "C" bool cond(int); extern "C" bool cond2(int); extern "C" const char* msg(int); extern "C" void after(int); extern "C" void other(int);
struct ES : std::exception { ES(const std::string& s); ~ES(); std::string m; };
struct ES2 { explicit ES2(std::string s); ES2(); std::string m; };
struct ED { ED(); int k; };
struct EN { EN(int); };
'''
KPRE = r'''
#include <Kokkos_Core.hpp>
#include <cstdio>
#include "ekat_kernel_assert.hpp"
extern "C" bool cond(int); extern "C" bool cond2(int); extern "C" const char* msg(int); extern "C" void after(int); extern "C" void other(int);
'''
RT = "typeinfo for std::runtime_error"
# name, body, exception type, message given, debug only, condition text
HOST = [
    ("require", "EKAT_REQUIRE(cond(a))", RT, False, False, "cond(a)"),
    ("require_m", "EKAT_REQUIRE(cond(a),msg(b))", RT, True, False, "cond(a)"),
    ("require_s", 'EKAT_REQUIRE(cond(a),"pre " << msg(b) << 17 << " post")', RT, True, False, "cond(a)"),
    ("require_es", "EKAT_REQUIRE(cond(a),msg(b),ES)", "typeinfo for ES", True, False, "cond(a)"),
    ("require_es2", "EKAT_REQUIRE(cond(a),msg(b),ES2)", "typeinfo for ES2", True, False, "cond(a)"),
    ("require_le", "EKAT_REQUIRE(cond(a),msg(b),std::logic_error)", "typeinfo for std::logic_error", True, False, "cond(a)"),
    ("require_ed", "EKAT_REQUIRE(cond(a),msg(b),ED)", "typeinfo for ED", True, False, "cond(a)"),
    ("require_ex", "EKAT_REQUIRE(cond(a),msg(b),std::exception)", "typeinfo for std::exception", True, False, "cond(a)"),
    ("require_en", "EKAT_REQUIRE(cond(a),msg(b),EN)", RT, True, False, "cond(a)"),
    ("require_msg", "EKAT_REQUIRE_MSG(cond(a),msg(b))", RT, True, False, "cond(a)"),
    ("require_msg_s", 'EKAT_REQUIRE_MSG(cond(a),"x=" << msg(b) << "\\n")', RT, True, False, "cond(a)"),
    ("error", "EKAT_ERROR_MSG(msg(b))", RT, True, False, None),
    ("error_s", 'EKAT_ERROR_MSG("bad " << msg(b))', RT, True, False, None),
    ("assert", "EKAT_ASSERT(cond(a))", RT, False, True, "cond(a)"),
    ("assert_m", "EKAT_ASSERT_MSG(cond(a),msg(b))", RT, True, True, "cond(a)"),
    ("assert_s", 'EKAT_ASSERT_MSG(cond(a),"v " << msg(b))', RT, True, True, "cond(a)"),
]
KERN = [
    ("kreq", "EKAT_KERNEL_REQUIRE(cond(a))", None, False, False, "cond(a)"),
    ("kreq_m", "EKAT_KERNEL_REQUIRE_MSG(cond(a),msg(b))", None, True, False, "cond(a)"),
    ("kerr", "EKAT_KERNEL_ERROR_MSG(msg(b))", None, True, False, None),
    ("kass", "EKAT_KERNEL_ASSERT(cond(a))", None, False, True, "cond(a)"),
    ("kass_m", "EKAT_KERNEL_ASSERT_MSG(cond(a),msg(b))", None, True, True, "cond(a)"),
]
UNC = "std::uncaught_exceptions()"


def cmp(pred, a, b):
    return {"eq": a == b, "sgt": a > b, "slt": a < b, "ugt": a > b, "ult": a < b}.get(pred)


def decider(cval, u):
    """conditions: cond -> cval; std::uncaught_exceptions() -> u"""
    def dec(t):
        if t[0] == "call" and t[1] in cval:
            return cval[t[1]]
        if t[0] == "e" and t[1].startswith("icmp ") and t[2][0] == "call" and t[2][1] == UNC and t[3][0] == "c":
            return cmp(t[1][5:], u, t[3][1])
        if t[0] == "e" and t[1] == "icmp eq" and t[2][0] == "call" and t[2][1] in cval and t[3] == ("c", 0):
            return not cval[t[2][1]]
        return None
    return dec


def state(t):
    """the variables of the library a term reads"""
    if t[0] == "load" and t[1][0] == "g" and t[1][1].startswith("ekat::"):
        return {(t[1], t[2])}
    return set().union(*[state(x) for x in t if isinstance(x, tuple) and x], set())


VARS = {}      # the variables of the module under analysis: what they start with, and whether each thread has its own


def fresh(t):
    """value of a condition when these variables are as at the start of a thread"""
    if t[0] == "load" and state(t):
        return VARS.get(t[1][1], [0])[0]
    if t[0] == "c":
        return t[1]
    if t[0] == "e" and t[1].startswith("icmp "):
        a, b = fresh(t[2]), fresh(t[3])
        return None if a is None or b is None else cmp(t[1][5:], a, b)
    return None


def loc(p):
    for c in reversed(p.calls):
        l = repoloc(c["loc"])
        if "/repo/" in l:
            return l
    return "src/core/ekat_assert.hpp"


def check_macro(rep, f, m, kernel, debug, src, line, stack):
    name, body, ti, hasmsg, dbg, ctext = m
    off = dbg and not debug
    what = body + (" (Debug)" if debug else " (NDEBUG)") + (" with stack traces" if stack else "")
    key = "%s|%d" % (name, debug)
    end = [("Kokkos::abort", "Kokkos::Impl::host_abort")] if kernel else []
    seen = set()
    if not kernel and not off:
        try:
            for p in Walk(f, decider({"cond": False}, 1), limit=500).run():
                for t in p.facts:
                    seen |= state(t)
            for p in Walk(f, decider({"cond": False}, 0), limit=500, stores=True).run() if seen else ():
                for k in seen:
                    if k[0][1] in VARS and not VARS[k[0][1]][1]:
                        return rep.bad("unwinding", loc(p), "%s: all threads share %s, an error suppressed in one thread may hide one in another" % (what, k[0][1]), key)
                st = {c["args"][1][1:]: c["args"][0] for c in p.calls if c["dem"] == "<store>" and c["args"][1][0] == "p"}
                for k in seen:
                    if p.calls[-1]["dem"] == "__cxa_throw" and st.get(k) != ("c", VARS.get(k[0][1], [0])[0]):
                        return rep.bad("unwinding", loc(p), "%s throws without resetting %s: an error suppressed while this exception unwinds may not be reported" % (what, k[0][1]), key)
                    rep.ok("unwinding")
        except Limit:
            pass
    for cv in (True, False):
        for u in (0, 1, 2) if not kernel else (0,):
            if ctext is None and cv:
                continue
            try:
                P = Walk(f, decider({"cond": cv}, u), noreturn=end[0] if end else (), limit=500).run()
            except Limit:
                rep.undecided.append(name)
                return
            if not P:
                raise ToolError("no path through %s" % name)
            printed = False
            for p in P:
                nc = sum(c["dem"] == "cond" for c in p.calls)
                nm = sum(c["dem"] == "msg" for c in p.calls)
                na = sum(c["dem"] == "after" for c in p.calls)
                want = 0 if off or ctext is None else 1
                if nc != want:
                    return rep.bad("evaluation", loc(p), "%s evaluates its condition %d times, must be %d" % (what, nc, want), key)
                fails = not off and not cv
                rep.ok("evaluation")
                if not fails:
                    if p.end != "ret" or na != 1:
                        return rep.bad("outcome", loc(p), "%s does not return when its condition holds" % what if not off else "%s is not a no-op" % what, key)
                    extra = [c["dem"] for c in p.calls if c["dem"] not in ("cond", "after")]
                    if extra:
                        return rep.bad("evaluation", loc(p), "%s calls %s although its condition holds" % (what, extra[0]), key)
                    rep.ok("outcome")
                    continue
                if hasmsg and nm != 1:
                    return rep.bad("message", loc(p), "%s evaluates its message %d times on failure" % (what, nm), key)
                if kernel:
                    if p.end != "noreturn" or not p.calls[-1]["dem"].startswith(end[0]) or na:
                        return rep.bad("outcome", loc(p), "%s does not abort when its condition is false" % what, key)
                    rep.ok("outcome")
                    toks = set()
                    for c in p.calls:
                        if c["dem"] in ("printf", "puts", "fprintf", "Kokkos::printf", "fputs") or c["dem"].startswith("Kokkos::"):
                            toks |= c["tokens"]
                    tell(rep, p, toks, what, hasmsg, ctext, None, 0, key)
                    continue
                if u == 0:
                    if p.end != "noreturn" or p.calls[-1]["dem"] != "__cxa_throw" or na:
                        return rep.bad("outcome", loc(p), "%s does not throw when its condition is false" % what, key)
                    t = p.calls[-1]["args"][1]
                    if t != ("p", ("g", ti), 0):
                        return rep.bad("outcome", loc(p), "%s throws %s, must be %s" % (what, t[1][1] if t[0] == "p" else t, ti), key)
                    rep.ok("outcome")
                    toks = set(p.calls[-1]["argtok"][0])
                    if ti in ("typeinfo for ED", "typeinfo for std::exception"):
                        toks |= p.cont.get(("g", "std::cerr"), set())
                    tell(rep, p, toks, what, hasmsg, ctext, src, line, key)
                else:
                    if p.end != "ret" or na != 1 or any(c["dem"] == "__cxa_throw" for c in p.calls):
                        return rep.bad("unwinding", loc(p), "%s throws while another exception is being handled by the unwinder" % what, key)
                    rep.ok("unwinding")
                    if not hasmsg or any(t[0] == "call" and t[1] == "msg" for t in p.cont.get(("g", "std::cerr"), ())):
                        printed = True
                    elif not any(fresh(t) is not None and bool(fresh(t)) != v for t, v in p.facts.items() if state(t)):
                        return rep.bad("unwinding", loc(p), "%s: the first message suppressed during unwinding is not reported" % what, key)
            if not kernel and not off and not cv and u:
                if not printed:
                    return rep.bad("unwinding", loc(P[0]), "%s suppressed during unwinding does not report its message" % what, key)
                rep.ok("unwinding")
    rep.sample(macro=what, rule="all paths, condition x unwinding state")


def tell(rep, p, toks, what, hasmsg, ctext, src, line, key):
    if hasmsg and not any(t[0] == "call" and t[1] == "msg" for t in toks):
        return rep.bad("message", loc(p), "%s: the message given does not reach the report" % what, key)
    strs = [t[1] for t in toks if t[0] == "s"]
    if ctext and not any(ctext in s for s in strs):
        return rep.bad("message", loc(p), "%s: the text of the failed condition does not reach the report" % what, key)
    if src and (not any(s.endswith(os.path.basename(src)) for s in strs) or ("c", line) not in toks):
        return rep.bad("message", loc(p), "%s: file and line do not reach the report" % what, key)
    rep.ok("message")


def structural(rep, fns, debug, kernel):
    """macros are single statements and keep the whole condition together"""
    S = [("dangling", {}, "if(a) %s; else other(b)"), ("orcond", {}, "%s"), ("andnot", {}, "%s")]
    mac = ("EKAT_KERNEL_REQUIRE_MSG", "EKAT_KERNEL_ASSERT") if kernel else ("EKAT_REQUIRE", "EKAT_ASSERT")
    for k in ("dangling", "orcond", "mix"):
        f = fns["t_" + k]
        for c1 in (True, False):
            for c2 in (True, False):
                P = Walk(f, decider({"cond": c1, "cond2": c2}, 0), noreturn=("Kokkos::abort", "Kokkos::Impl::host_abort"), limit=500).run()
                for p in P:
                    if k == "dangling":
                        # facts: a
                        taken = [v for t, v in p.facts.items() if t == ("e", "icmp eq", ("a", 0), ("c", 0))]
                        isa = not taken[0] if taken else None
                        oth = sum(c["dem"] == "other" for c in p.calls)
                        thrown = p.end == "noreturn"
                        good = isa is not None and oth == (0 if isa else 1) and thrown == (isa and not c1)
                        t = "if (x) %s(cond,msg); else other();" % mac[0]
                    elif k == "orcond":
                        good = (p.end == "noreturn") == (not (c1 or c2))
                        t = "%s(c1 || c2)" % mac[0]
                    else:
                        good = (p.end == "noreturn") == (not (c1 if c2 else True))
                        t = "%s(c2 ? c1 : true)" % mac[0]
                    if not good:
                        return rep.bad("statement", loc(p), "%s does not check the whole condition as one statement" % t, "%s|%d" % (k, debug))
                    rep.ok("statement")


def job(a):
    kernel, debug, stack, tier = a
    rep = Report("P16", tier, "")
    macros = KERN if kernel else HOST
    o = (KPRE if kernel else PRE).split("\n")
    lines = {}
    for m in macros:
        o.append('extern "C" void t_%s(int a,int b){ %s; after(a); }' % (m[0], m[1]))
        lines[m[0]] = len(o)
    R = ("EKAT_KERNEL_REQUIRE", "EKAT_KERNEL_REQUIRE_MSG") if kernel else ("EKAT_REQUIRE", "EKAT_REQUIRE_MSG")
    o.append('extern "C" void t_dangling(int a,int b){ if(a) %s(cond(b),msg(b)); else other(b); }' % R[1])
    o.append('extern "C" void t_orcond(int a,int b){ %s(cond(a) || cond2(b)); }' % R[0])
    o.append('extern "C" void t_mix(int a,int b){ %s(cond2(b) ? cond(a) : true); }' % R[0])
    fl = [x for x in flags(not debug, mpi=False, kokkos=kernel)] + (["-DEKAT_HAS_STACKTRACE"] if stack else [])
    nm = "asserts%d%d%d" % (kernel, debug, stack)
    base = len((KPRE if kernel else PRE).split("\n"))
    if compiles(nm + "_w", "\n".join(o) + "\n", fl):
        # which uses do not compile?  (none of them: the tree is broken, no verdict)
        errs = [(k, compiles(nm + "_w", "\n".join(o[:base] + [o[k]]) + "\n", fl)) for k in range(base, len(o))]
        if all(e for _, e in errs) or not any(e for _, e in errs):
            raise ToolError("asserts driver: " + errs[0][1])
        for k, e in errs:
            if e:
                use = o[k].split("{", 1)[1].rsplit("}", 1)[0].strip()
                rep.bad("statement", "src/kokkos/ekat_kernel_assert.hpp" if kernel else "src/core/ekat_assert.hpp", "`%s` does not compile as a statement: %s" % (use, e.split("error:")[-1].strip()), "compile|%d" % k)
        return rep
    J = emit(nm, "\n".join(o) + "\n", fl, opaque=[r"^std::", r"^boost::", r"^void boost::", r"^__cxa", r"^operator", r"^Kokkos::", r"^ES", r"^ED", r"^EN"], entry="^t_")
    fns = {f["name"]: f for f in J["functions"]}
    VARS.clear()
    VARS.update(J["vars"])
    for m in macros:
        check_macro(rep, fns["t_" + m[0]], m, kernel, debug, None if stack or kernel else J["src"], lines[m[0]], stack)
    structural(rep, fns, debug, kernel)
    return rep


def check(pid, tier):
    rep = Report(pid, tier, "every path through every expansion of an error-check macro: condition once, message only on failure, the exception asked for iff the condition is false")
    for r in pmap(job, [(0, 1, 0, tier), (0, 0, 0, tier), (1, 1, 0, tier), (1, 0, 0, tier)]):
        rep.merge(r)
    rep.need("evaluation", 100)
    rep.need("outcome", 80)
    rep.need("message", 30)
    rep.need("unwinding", 60)
    rep.need("statement", 30)
    return rep.finish("path analysis of each macro's expansion, for each outcome of the condition, number of exceptions in flight and build mode; exception type from the type information handed to the throw; message, condition text and location by value flow into the thrown object")
