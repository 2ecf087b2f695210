"""P17: floating-point exception control.  P18: sessions and the test main."""
from common import *
from paths import Walk, Limit

STD = [r"^std::", r"^[^(<]* std::", r"^__cxa", r"^operator", r"^__gnu"]


def walk(f, **k):
    P = Walk(f, **k).run()
    if not P:
        raise ToolError("no path through %s" % f["name"])
    return P


def at(p, where):
    for c in p.calls:
        l = repoloc(c["loc"])
        if l.startswith("/repo/src") or "/src/" in l and REPO in l:
            return l
    return where


# ---------------------------------------------------------------- P17
FE = {"FE_INVALID": 1, "FE_DIVBYZERO": 4, "FE_OVERFLOW": 8, "FE_UNDERFLOW": 16, "FE_INEXACT": 32}
ALL = 61
FPE = r'''
#include <cfenv>
#include <cstdlib>
#define EKAT_HAVE_FEENABLEEXCEPT
#include "ekat_fpe.cpp"
static_assert(FE_INVALID==1 && FE_DIVBYZERO==4 && FE_OVERFLOW==8 && FE_UNDERFLOW==16 && FE_INEXACT==32 && FE_ALL_EXCEPT==61, "the masks of this platform");
extern "C" void t_enable(int m) { ekat::enable_fpes(m); }
extern "C" void t_disable(int m) { ekat::disable_fpes(m); }
extern "C" void t_disable_all() { ekat::disable_all_fpes(); }
extern "C" int t_get() { return ekat::get_enabled_fpes(); }
extern "C" void t_cfg(std::string* o) { new(o) std::string(ekat::fpe_config_string()); }
'''


def sub(t, env):
    """constant folding of a term with the given symbols fixed, None if unknown"""
    from paths import fold, bits
    if t in env:
        return env[t]
    if t[0] == "c":
        return t[1]
    if t[0] == "e" and len(t) == 4 and isinstance(t[2], tuple) and isinstance(t[3], tuple):
        a, b = sub(t[2], env), sub(t[3], env)
        op, _, pred = t[1].partition(" ")
        if a is not None and b is not None:
            return fold(op, pred or None, a, b, 0 if op != "xor" else 0)
    return None


def p17(rep):
    J = emit("fpe", FPE, flags(True, mpi=False, kokkos=False), opaque=STD, entry="^t_")
    F = {f["name"]: f for f in J["functions"]}
    src = "src/core/ekat_fpe.cpp"
    m = ("a", 0)
    same = (m, ("e", "and", m, ("c", ALL)), ("e", "and", ("c", ALL), m))
    FN = ("feenableexcept", "fedisableexcept", "feclearexcept", "fesetenv", "feholdexcept", "fesetexceptflag", "feraiseexcept", "feupdateenv", "fetestexcept", "fegetexcept", "fegetenv")

    def mask(name, want, args, what, clear):
        for p in walk(F[name]):
            cs = [(c["dem"], c["args"][0] if c["args"] else None) for c in p.calls if c["dem"] in FN]
            none = any(t == ("e", "icmp eq", m, ("c", 0)) and v for t, v in p.facts.items())
            chg = [c for c in cs if c[0] in ("feenableexcept", "fedisableexcept", "fesetenv", "feupdateenv", "feholdexcept")]
            if none and not chg:
                rep.ok("masks")
                continue
            if [c[0] for c in chg] != [want] or chg[0][1] not in args:
                return rep.bad("masks", at(p, src), "%s must call %s once with its mask, on every path; found %s" % (what, want, chg or "no such call"), name)
            if any(c[0] in ("feraiseexcept", "fesetexceptflag") for c in cs):
                return rep.bad("masks", at(p, src), "%s raises exceptions" % what, name)
            rep.ok("masks")
            cl = [k for k, c in enumerate(cs) if c[0] == "feclearexcept" and c[1] in args + (("c", ALL),)]
            if not cl or clear and cl[0] > cs.index(chg[0]):
                return rep.bad("masks", at(p, src), "%s must clear the stale flags of its mask%s" % (what, " before it unmasks them" if clear else ""), name)
            rep.ok("masks")
        rep.sample(api=what)
    mask("t_enable", "feenableexcept", same, "enable_fpes(mask)", True)
    mask("t_disable", "fedisableexcept", same, "disable_fpes(mask)", False)
    mask("t_disable_all", "fedisableexcept", (("c", ALL),), "disable_all_fpes()", False)
    for p in walk(F["t_get"]):
        if not (p.ret and p.ret[0] == "call" and p.ret[1] == "fegetexcept") or any(c["dem"] in FN and c["dem"] != "fegetexcept" for c in p.calls):
            rep.bad("masks", at(p, src), "get_enabled_fpes() must return fegetexcept()", "t_get")
        else:
            rep.ok("masks")
    # the report names exactly the enabled exceptions
    bad = None
    for p in walk(F["t_cfg"], limit=20000):
        ms = [c["res"] for c in p.calls if c["dem"] == "fegetexcept"]
        if not ms:
            bad = bad or (p, "fpe_config_string() does not read the enabled mask")
            continue
        strs = [t[1] for t in p.cont.get(("a", 0), ()) if t[0] == "s"]
        poss = []
        for v in [sum(b for k, b in enumerate(FE.values()) if s >> k & 1) for s in range(32)]:
            ok = True
            for t, val in p.facts.items():
                r = sub(t, {x: v for x in ms})
                if r is not None and bool(r) != val:
                    ok = False
            if ok:
                poss.append(v)
        for v in poss:
            for n, b in FE.items():
                if bool(v & b) != any(n in s for s in strs):
                    bad = bad or (p, "fpe_config_string() %s %s when the mask is %d" % ("omits" if v & b else "lists", n, v))
            rep.ok("names", len(FE) + 1)
            if (v == 0) != any("NONE" in s for s in strs):
                bad = bad or (p, "fpe_config_string() %s NONE when the mask is %d" % ("omits" if v == 0 else "lists", v))
    if bad:
        rep.bad("names", at(bad[0], src), bad[1], "cfg")
    # what the default test session enables
    T = '#include <cfenv>\n#include <cstdio>\nvoid ekat_initialize_test_session (int argc, char** argv, const bool print_config);\nvoid ekat_finalize_test_session ();\n#include "ekat_test_session.cpp"\n' \
        'extern "C" void t_init(int c,char**v,bool b){ ekat_initialize_test_session(c,v,b); }\n'
    for kok in (True, False):
        for on in (True, False):
            fl = flags(True, mpi=False, kokkos=kok) + (["-DEKAT_ENABLE_FPE_DEFAULT_MASK"] if on else [])
            e = compiles("fpesess%d" % kok, '#include "ekat_test_session.cpp"\n', fl)
            if e:
                rep.bad("session mask", "src/testing-support/ekat_test_session.cpp", "the default test session does not compile%s: %s" % (" with EKAT_ENABLE_FPE_DEFAULT_MASK" if on else "", e.split("error:")[-1]), "sess|%d%d" % (kok, on))
                continue
            f = next(f for f in emit("sess%d%d" % (kok, on), T, fl, opaque=STD + [r"^ekat::", r"^Kokkos::"], entry="^t_")["functions"] if f["name"] == "t_init")
            for p in walk(f):
                en = [c["args"][0] for c in p.calls if c["dem"] == "ekat::enable_fpes(int)"]
                k = [c for c in p.calls if c["dem"].startswith("ekat::initialize_kokkos_session(")]
                if en != ([("c", 13)] if on else []):
                    rep.bad("session mask", at(p, "src/testing-support/ekat_test_session.cpp"), "the default test session must enable %s" % ("division by zero, invalid and overflow, once" if on else "no exception"), "sess|%d%d" % (kok, on))
                else:
                    rep.ok("session mask")


# ---------------------------------------------------------------- P18
KS = r'''
#include "ekat_kokkos_session.cpp"
extern "C" void t_init3(int a,char**b,bool c){ ekat::initialize_kokkos_session(a,b,c); }
extern "C" void t_init1(bool c){ ekat::initialize_kokkos_session(c); }
extern "C" void t_fin(){ ekat::finalize_kokkos_session(); }
'''


def argvof(toks, a):
    """indices of the elements of argv (argument `a`) named in a token set"""
    return {t[2] // 8 for t in toks if t[0] == "load" and t[1] == ("a", a)}


def found(p, word, a):
    """{argv index: True/False} from the branch facts on searches for `word`"""
    out = {}
    for c in p.calls:
        if ("s", word) not in c["tokens"] or not c["res"] or c["res"][3] == "void":
            continue
        ix = argvof(c["tokens"], a)
        if len(ix) != 1:
            continue
        r = c["res"]
        d = c["dem"]
        neg = "operator!=" in d
        for t, v in p.facts.items():
            y = None
            if t == r:
                y = v != neg if r[3] == "i1" else (v if d.startswith("strstr") or d.startswith("strchr") else None)
            elif t == ("e", "icmp eq", r, ("c", -1)) and ("find" in d):
                y = not v
            elif t == ("e", "icmp eq", r, ("c", 0)):
                y = not v if d.startswith("strstr") else v if "strcmp" in d or "compare" in d or "strncmp" in d else None
            if y is not None:
                out[next(iter(ix))] = y
    return out


def p18_kokkos(rep):
    fl = flags(True, mpi=False)
    J = emit("ksess", KS, fl, opaque=STD + [r"^Kokkos::", r"kokkos_config_string"], entry="^t_")
    F = {f["name"]: f for f in J["functions"]}
    src = "src/kokkos/ekat_kokkos_session.cpp"

    def isinit(p):
        v = [x for t, x in p.facts.items() if t[0] == "call" and t[1] == "Kokkos::is_initialized()"]
        return v[0] if v else None

    for n in range(4):
        hit, plain = set(), 0
        for p in walk(F["t_init3"], args={0: n}, unroll=5, limit=20000):
            what = "initialize_kokkos_session(argc=%d,argv,print)" % n
            ini = [c for c in p.calls if c["dem"].startswith("Kokkos::initialize(")]
            ii = isinit(p)
            if ii is None or ii and ini or ii is False and len(ini) != 1:
                return rep.bad("kokkos", at(p, src), "%s must initialize Kokkos once if it is not initialized, and leave it alone otherwise" % what, "init")
            rep.ok("kokkos")
            pr = [c for c in p.calls if c["dem"] in ("printf", "puts", "putchar")]
            pc = p.facts.get(("a", 2))
            if pr and pc is not True:
                return rep.bad("kokkos", at(p, src), "%s prints although print_config is false" % what, "print")
            if ii:
                continue
            fd = found(p, "--kokkos", 1)
            args = "int&" in ini[0]["dem"]
            anyf = any(fd.values())
            missing = [k for k in range(1, n) if k not in fd]
            if args != anyf or not anyf and missing:
                return rep.bad("kokkos", at(p, src), "%s must hand the command line to Kokkos iff one of its arguments contains --kokkos (searched: %s, used: %s)" % (what, fd, "arguments" if args else "default settings"), "args")
            if args and (ini[0]["args"][1] != ("a", 1) or p.mem.get((ini[0]["args"][0][1], 0), None) not in (None, ("c", n))):
                return rep.bad("kokkos", at(p, src), "%s must hand its own command line to Kokkos" % what, "args")
            rep.ok("kokkos", 2)
            hit |= {k for k, v in fd.items() if v}
            plain += not anyf
        # a search that does not end leaves no such path
        lost = set(range(1, n)) - hit
        if lost or not plain:
            return rep.bad("kokkos", src, "initialize_kokkos_session(argc=%d,argv,print) does not finish the search when %s" % (n, "argument %d contains --kokkos" % min(lost) if lost else "no argument contains --kokkos"), "search")
        rep.ok("kokkos")
    for p in walk(F["t_init1"], unroll=4):
        ini = [c for c in p.calls if c["dem"].startswith("Kokkos::initialize(")]
        ii = isinit(p)
        if ii is None or ii and ini or ii is False and (len(ini) != 1 or "int&" in ini[0]["dem"]):
            return rep.bad("kokkos", at(p, src), "initialize_kokkos_session(print) must initialize Kokkos with default settings if it is not initialized", "init1")
        rep.ok("kokkos")
    for p in walk(F["t_fin"]):
        fin = [c for c in p.calls if c["dem"] == "Kokkos::finalize()"]
        ii = isinit(p)
        if ii is None or len(fin) != (1 if ii else 0):
            return rep.bad("kokkos", at(p, src), "finalize_kokkos_session() must finalize Kokkos iff it is initialized", "fin")
        rep.ok("kokkos")


MAIN = r'''
#define main t_main
extern "C" int t_main(int,char**);
#include "ekat_catch_main.cpp"
#undef main
#include <cstddef>
#include <new>
extern "C" void t_split(Args* o,int argc,char**argv){ new(o) Args(split_args(argc,argv)); }
extern "C" unsigned long t_custom(){ return offsetof(Args,custom); }
extern "C" unsigned long t_catch2(){ return offsetof(Args,catch2); }
extern "C" unsigned long t_size(){ return sizeof(Args); }
'''


def vectors(p, offs, n, a):
    """contents of the two vectors after a path, None where a call is not understood"""
    V = {o: [] for o in offs}

    def elem(c, k):
        x = c["args"][k]
        v = c["deref"][k]
        if x == ("a", a) or x[0] == "p" and x[1] == ("a", a):
            return (x[2] if x[0] == "p" else 0) // 8
        if v is None:
            return None
        if v == ("c", 0):
            return "null"
        if v[0] == "load" and v[1] == ("a", a):
            return v[2] // 8
        return None

    def index(x):
        return 0 if x == ("a", a) else x[2] // 8 if x[0] == "p" and x[1] == ("a", a) else None
    for c in p.calls:
        if not c["dem"].startswith(("std::vector<", "void std::vector<")) and "std::vector<" not in c["dem"].split("(")[0]:
            continue
        x = c["args"][0]
        off = x[2] if x[0] == "p" and x[1] == ("a", 0) else 0 if x == ("a", 0) else None
        if off not in V:
            continue
        m = c["dem"].split("(")[0].rsplit("::", 1)[-1]
        if m in ("push_back", "emplace_back<char*&>", "emplace_back<char*>") or m.startswith("emplace_back"):
            e = elem(c, 1)
            if e is None:
                if m.startswith("emplace_back") and "nullptr" in m:
                    e = "null"
                else:
                    return None
            V[off].append(e)
        elif m.startswith(("insert", "assign", "vector<")) and len(c["args"]) >= 3:
            lo, hi = index(c["args"][-2]), index(c["args"][-1])
            if c["dem"].split("(")[0].rsplit("::", 1)[-1].startswith("vector<"):
                lo, hi = index(c["args"][1]), index(c["args"][2])
            if lo is None or hi is None:
                return None
            if m.startswith("assign"):
                V[off] = []
            V[off] += list(range(lo, hi))
        elif m in ("vector", "size", "data", "begin", "end", "reserve", "empty", "cbegin", "cend", "back", "operator[]"):
            continue
        else:
            return None
    return [V[o] for o in offs]


def p18_main(rep, mpi):
    fl = flags(True, mpi=mpi, kokkos=False) + ["-isystem", VERIF + "/shim/catch"]
    src = "src/testing-support/ekat_catch_main.cpp"
    note = " [%s]" % ("MPI" if mpi else "serial")
    J = emit("main%d" % mpi, MAIN, fl, opaque=STD + [r"^Catch::", r"^ekat::(Comm|TestSession)", r"^split_args", r"^void ekat::throw_exception<"], entry="^t_")
    F = {f["name"]: f for f in J["functions"]}
    want = (["MPI_Init"] if mpi else []) + ["split", "parse_test_args", "applyCommandLine", "ekat_initialize_test_session", "run", "ekat_finalize_test_session"] + (["MPI_Finalize"] if mpi else [])

    def ev(c):
        d = c["dem"]
        h = d.split("(")[0]
        if h in ("MPI_Init", "MPI_Init_thread"):
            return "MPI_Init"
        if h == "split_args":
            return "split"
        if h in ("MPI_Finalize", "ekat_initialize_test_session", "ekat_finalize_test_session"):
            return h
        if d.startswith("ekat::TestSession::parse_test_args"):
            return "parse_test_args"
        if h == "Catch::Session::applyCommandLine":
            return "applyCommandLine"
        if h == "Catch::Session::run":
            return "run"
        return None
    for p in walk(F["t_main"], limit=2000):
        L = [(ev(c), c) for c in p.calls]
        L = [x for x in L if x[0]]
        seq = [x[0] for x in L]
        C = dict(L)

        def bad(t, k):
            rep.bad("main", at(p, src), "the test main%s %s" % (note, t), "main|" + k)
        ap = C.get("applyCommandLine")
        if ap is None:
            return bad("does not hand the command line to the test framework", "apply")
        st = p.facts.get(("e", "icmp eq", ap["res"], ("c", 0)), p.facts.get(ap["res"]))
        if ap["res"] in p.facts:
            st = not p.facts[ap["res"]]
        if st is None:
            return bad("does not look at the status of the command line", "apply")
        if st is False:
            th = any(c["dem"].startswith("void ekat::throw_exception<") for c in p.calls)
            if not th and ("run" in seq or p.end == "ret" and sub(p.ret, {ap["res"]: 1}) in (0, None)):
                return bad("goes on after a command line error", "apply")
            rep.ok("main")
            continue
        # split and parse may come in any order with respect to Catch's own use of the split arguments
        if sorted(seq) != sorted(want):
            return bad("does not do each of %s exactly once: %s" % (", ".join(want), ", ".join(seq)), "once")
        pos = {s: k for k, s in enumerate(seq)}
        for a, b in ([("MPI_Init", x) for x in want[1:]] if mpi else []) + [("split", "parse_test_args"), ("split", "applyCommandLine"), ("parse_test_args", "ekat_initialize_test_session"), ("applyCommandLine", "run"),
                ("ekat_initialize_test_session", "run"), ("run", "ekat_finalize_test_session")] + ([("ekat_finalize_test_session", "MPI_Finalize")] if mpi else []):
            if pos[a] > pos[b]:
                return bad("does %s after %s" % (a, b), "order")
        rep.ok("main", 8)
        if p.end != "ret":
            return bad("does not return", "ret")
        for r in (0, 1, 2, 3, 42, 254, 255, -1):
            v = sub(p.ret, {C["run"]["res"]: r})
            if v is None or ((v & 255) != 0) != (r != 0):
                return bad("returns %s when the test run reports %d" % (v if v is not None else "something else", r), "ret")
            rep.ok("main")
        # argument plumbing
        off = {k: walk(F["t_" + k])[0].ret[1] for k in ("custom", "catch2")}
        obj = C["split"]["args"][0]
        if obj[0] != "p":
            raise ToolError("split_args result is not an object")
        if C["parse_test_args"]["args"][1] != ("p", obj[1], obj[2] + off["custom"]) or C["parse_test_args"]["args"][0][:2] != ("call", "ekat::TestSession::get()"):
            return bad("must parse the arguments after --args into the test session", "custom")
        n, v = ap["args"][1], ap["args"][2]
        vec = ("p", obj[1], obj[2] + off["catch2"])
        cs = {c["res"]: c for c in p.calls if c["res"]}
        good = v in cs and "::data()" in v[1] and cs[v]["args"][0] == vec
        szs = [x for x in cs if x[0] == "call" and "::size() const" in x[1] and cs[x]["args"][0] == vec]
        good = good and any(sub(n, {s: 7}) == 6 for s in szs)
        if not good:
            return bad("must hand exactly the arguments before --args to the test framework", "catch2")
        it = C["ekat_initialize_test_session"]["args"]
        root = it[2][0] == "call" and it[2][1] == "ekat::Comm::am_i_root() const" or it[2][:2] == ("e", "icmp eq") and it[2][2][0] == "call" and it[2][2][1] == "ekat::Comm::rank() const" and it[2][3] == ("c", 0)
        if not root:
            return bad("must print the configuration on the root rank only", "root")
        if mpi:
            i1 = next((k for k, c in enumerate(p.calls) if c["dem"].startswith("ekat::Comm::Comm(")), None)
            i0 = p.calls.index(C["MPI_Init"])
            world = any((c["dem"].startswith("ekat::Comm::reset_mpi_comm") or c["dem"].startswith("ekat::Comm::Comm(ompi")) and c["args"][1] == ("p", ("g", "ompi_mpi_comm_world"), 0) for c in p.calls)
            if i1 is None or i1 < i0 or not world:
                return bad("must use the world communicator, after MPI_Init", "world")
        rep.ok("main", 4)
    rep.sample(api="main" + note, order=" < ".join(want))


def p18_split(rep):
    fl = flags(True, mpi=False, kokkos=False) + ["-isystem", VERIF + "/shim/catch"]
    src = "src/testing-support/ekat_catch_main.cpp"
    J = emit("split", MAIN, fl, opaque=STD + [r"^Catch::", r"^ekat::", r"^void ekat::"], entry="^t_")
    F = {f["name"]: f for f in J["functions"]}
    off = {k: walk(F["t_" + k])[0].ret[1] for k in ("custom", "catch2", "size")}
    if off["size"] != 48:
        raise ToolError("Args is not two vectors any more")
    for n in range(1, 5):
        for p in walk(F["t_split"], args={1: n}, unroll=6, limit=5000):
            V = vectors(p, (off["catch2"], off["custom"]), n, 2)
            if V is None:
                rep.undecided.append("split_args")
                return
            fd = found(p, "--args", 2)
            k = next((i for i in range(1, n) if fd.get(i)), None)
            exp = (list(range(n if k is None else k)) + ["null"], [] if k is None else list(range(k + 1, n)))
            seen = all(i in fd for i in range(1, n if k is None else k))
            if not seen or V != [exp[0], exp[1]]:
                return rep.bad("split", at(p, src), "split_args of %d arguments%s gives catch2=%s custom=%s, must be catch2=%s custom=%s" % (n, "" if k is None else " with --args at %d" % k, V[0], V[1], exp[0], exp[1]), "split")
            rep.ok("split")


def p18_session(rep):
    T = '#include <cfenv>\n#include <cstdio>\n#include "ekat_test_session.cpp"\nextern "C" void t_init(int c,char**v,bool b){ ekat_initialize_test_session(c,v,b); }\nextern "C" void t_fin(){ ekat_finalize_test_session(); }\n'
    for kok in (True, False):
        J = emit("tsess%d" % kok, T, flags(True, mpi=False, kokkos=kok), opaque=STD + [r"^ekat::", r"^Kokkos::"], entry="^t_")
        F = {f["name"]: f for f in J["functions"]}
        src = "src/testing-support/ekat_test_session.cpp"
        for p in walk(F["t_init"]):
            k = [c for c in p.calls if c["dem"].startswith("ekat::initialize_kokkos_session(")]
            good = len(k) == kok and all(c["args"] == [("a", 0), ("a", 1), ("a", 2)] for c in k)
            pr = [c for c in p.calls if c["dem"] in ("printf", "puts")]
            if not good:
                return rep.bad("session", at(p, src), "the default test session must initialize Kokkos with the command line%s" % ("" if kok else " only if there is Kokkos"), "sinit")
            if pr and p.facts.get(("a", 2)) is not True:
                return rep.bad("session", at(p, src), "the default test session prints although asked not to", "sprint")
            rep.ok("session")
        for p in walk(F["t_fin"]):
            if sum(c["dem"] == "ekat::finalize_kokkos_session()" for c in p.calls) != kok:
                return rep.bad("session", at(p, src), "the default test session must finalize Kokkos", "sfin")
            rep.ok("session")


def check(pid, tier):
    if pid == "P17":
        rep = Report(pid, tier, "calls to the floating-point environment on every path: which function, which mask, in which order")
        p17(rep)
        rep.need("masks", 6)
        rep.need("names", 100)
        rep.need("session mask", 4)
        return rep.finish("path analysis of every FPE function: order and arguments of the floating-point environment calls; names in the configuration report as a function of the branch facts on the mask bits")
    rep = Report(pid, tier, "typestate of the session over every path of the set-up, test main and tear-down functions")
    p18_kokkos(rep)
    for m in (True, False):
        p18_main(rep, m)
    p18_split(rep)
    p18_session(rep)
    rep.need("kokkos", 20)
    rep.need("main", 30)
    rep.need("split", 10)
    rep.need("session", 5)
    return rep.finish("path analysis of the session functions and of the test main: each step exactly once and in order, Kokkos arguments, split of the command line as a function of the branch facts, exit status as a function of the test result")
