"""Shared plumbing: scratch builds of driver translation units against
/repo's current sources, evidence, violations, known findings."""
import atexit, hashlib, json, os, pickle, re, selectors, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
CLANG = "clang++-18"
IRX = VERIF + "/build/irx"

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="ekatsa.")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class ToolError(Exception):
    """the analysis itself could not be carried out (exit 2, no verdict)"""


class Budget(BaseException):
    """one entry's analysis used up its time"""


class budget:
    """with budget(s): raise Budget in this thread after s seconds"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        import ctypes
        tid = threading.get_ident()
        self.done = False

        def fire():
            if not self.done:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(Budget))
        self.t = threading.Timer(self.s, fire)
        self.t.daemon = True
        self.t.start()

    def __exit__(self, *a):
        self.done = True
        self.t.cancel()


class WitnessError(Exception):
    """a static_assert of the driver does not hold: the program's types are not
    the specified ones"""


def ensure_irx():
    if not os.path.exists(IRX) or os.path.getmtime(IRX) < os.path.getmtime(VERIF + "/tools/irx.cpp"):
        r = subprocess.run(["bash", VERIF + "/setup.sh"], capture_output=True, text=True)
        if r.returncode or not os.path.exists(IRX):
            raise ToolError("cannot build irx:\n" + r.stdout + r.stderr)


INCS = ["core", "kokkos", "pack", "algorithm", "expression", "logging", "parser", "testing-support"]


def mpi_flags():
    d = "/usr/lib/x86_64-linux-gnu/openmpi/include"
    return ["-isystem", d, "-isystem", d + "/openmpi", "-DOMPI_SKIP_MPICXX"]


def view_shim():
    """Kokkos 4 spelling View::rank() on top of the installed Kokkos 3.7: a
    scratch copy of the system's Kokkos_View.hpp in which the rank constant is
    callable, so headers whose tests cannot be built here are still analysed."""
    d = os.path.join(scratch(), "kk4")
    out = os.path.join(d, "Kokkos_View.hpp")
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        s = open("/usr/include/Kokkos_View.hpp").read()
        a = "class View : public ViewTraits<DataType, Properties...> {"
        if a not in s:
            raise ToolError("Kokkos_View.hpp: View class not found")
        k = s.index(a)
        k2 = s.index("public:", k)
        s = (s[:k2 + 7] + "\n  static constexpr Kokkos::Impl::vsa_rank_t<ViewTraits<DataType, Properties...>::dimension::rank> rank{};\n  using element_type = typename ViewTraits<DataType, Properties...>::value_type;\n" + s[k2 + 7:])
        n = s.index("namespace Kokkos {")
        s = (s[:n] + "namespace Kokkos { namespace Impl { template<unsigned R> struct vsa_rank_t { KOKKOS_FUNCTION constexpr operator unsigned() const { return R; }"
             " KOKKOS_FUNCTION constexpr unsigned operator()() const { return R; } }; } }\n" + s[n:])
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        open(tmp, "w").write(s)
        os.rename(tmp, out)
    return d


def flags(ndebug=True, mpi=True, kokkos=True, defs=(), bfb=True, kk4=False, incs=()):
    f = ["-std=gnu++17", "-fopenmp", "-ffp-contract=off", "-w", "-g1", "-fno-discard-value-names", "-O2", "-Xclang", "-disable-llvm-passes",
         "-fno-strict-aliasing"]
    if ndebug:
        f += ["-DNDEBUG"]
    if bfb:
        f += ["-DEKAT_DEFAULT_BFB"]
    if mpi:
        f += ["-DEKAT_ENABLE_MPI", "-DEKAT_MPI_ERRORS_ARE_FATAL"] + mpi_flags()
    if kokkos:
        f += ["-DEKAT_HAS_KOKKOS", "-DKOKKOS_DEPENDENCE", "-DKOKKOS_ENABLE_CXX17"]
    f += ["-D" + d for d in defs]
    if kk4:
        f += ["-I", view_shim()]
    for d in incs:
        f += ["-I", d]
    f += ["-I" + SRC + "/" + d for d in INCS]
    f += ["-isystem", VERIF + "/shim/omp"]
    return f


def emit(name, text, fl, opaque=(), pure=(), inline=(), entry="^(t|r)_", extra=(), fail=(), pureref=()):
    """driver text (or path) -> parsed irx JSON"""
    ensure_irx()
    d = scratch()
    if text.startswith("/"):
        src = text
    else:
        src = os.path.join(d, name + ".cpp")
        open(src, "w").write(text)
    bc = os.path.join(d, name + ".bc")
    js = os.path.join(d, name + ".json")
    r = subprocess.run([CLANG] + fl + ["-c", "-emit-llvm", src, "-o", bc], capture_output=True, text=True)
    if r.returncode:
        w = []
        for m in re.finditer(r"^%s:(\d+):\d+: error: static assertion failed(.*)$" % re.escape(src), r.stderr, re.M):
            line = text.split("\n")[int(m.group(1)) - 1] if not text.startswith("/") else ""
            e = re.search(r"[tr]_(\w+)\(", line)
            w.append((e.group(1) if e else "", m.group(2).strip()))
        if w:
            raise WitnessError(w)
        raise ToolError("%s does not compile:\n%s" % (name, r.stderr[:6000]))
    cmd = [IRX, bc, js, "--entry=" + entry] + ["--opaque=" + o for o in opaque] + ["--pure=" + o for o in pure] + ["--inline=" + o for o in inline] + ["--fail=" + o for o in fail] + ["--outref=%s@%s" % (o, ",".join("%s%s" % (k, "+" if k in pureref[o] else "") for k in pureref[o]["out"])) if isinstance(pureref, dict) and pureref[o].get("outargs") else "--pureref=" + o for o in pureref if not (isinstance(pureref, dict) and pureref[o].get("effect"))] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("irx failed on %s:\n%s" % (name, r.stderr[:3000]))
    J = json.load(open(js))
    consts = {n: {(o, sz): int(v) for o, sz, v in c} for n, c in J.get("consts", {}).items() if c}
    gptrs = {n: dict(c) for n, c in J.get("gptrs", {}).items()}
    for f in J["functions"]:
        f["consts"] = consts
        f["gptrs"] = gptrs
    if not os.environ.get("VERIF_KEEP"):
        os.unlink(js)
        os.unlink(bc)
    J["src"] = src
    return J


def compiles(name, text, fl):
    """compile-only witness: "" if it builds, the compiler's first error otherwise"""
    src = os.path.join(scratch(), name + ".cpp")
    open(src, "w").write(text)
    r = subprocess.run([CLANG] + fl + ["-fsyntax-only", src], capture_output=True, text=True)
    if not r.returncode:
        return ""
    return next((l for l in r.stderr.splitlines() if "error:" in l), r.stderr[:500])


def pmap(f, items, n=None):
    """fork-based map: every worker is a child process; results are pickled back"""
    items = list(items)
    n = min(n or os.cpu_count() or 4, len(items))
    if n <= 1:
        return [f(x) for x in items]
    scratch()
    ensure_irx()
    import warnings
    warnings.filterwarnings("ignore", category=DeprecationWarning)
    # one process per item, at most n at a time, so long items do not pile up on one worker
    res = [None] * len(items)
    running = {}
    todo = list(range(len(items)))[::-1]
    sel = selectors.DefaultSelector()

    def start(i):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    out = (True, f(items[i]))
                except ToolError as e:
                    out = (False, "tool", str(e))
                except BaseException:
                    out = (False, "crash", traceback.format_exc())
                with os.fdopen(w, "wb") as fd:
                    pickle.dump(out, fd)
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        running[r] = (i, pid, [])
        sel.register(r, selectors.EVENT_READ)

    while todo or running:
        while todo and len(running) < n:
            start(todo.pop())
        for key, _ in sel.select():
            r = key.fd
            d = os.read(r, 1 << 20)
            if d:
                running[r][2].append(d)
                continue
            sel.unregister(r)
            os.close(r)
            i, pid, buf = running.pop(r)
            os.waitpid(pid, 0)
            if not buf:
                raise ToolError("worker died on item %d" % i)
            out = pickle.loads(b"".join(buf))
            if not out[0]:
                for j, (_, p, _b) in list(running.items()):
                    try:
                        os.kill(p, 9)
                    except OSError:
                        pass
                raise ToolError(out[2])
            res[i] = out[1]
    return res


def repoloc(loc):
    """outermost-to-innermost debug chain -> the innermost frame inside /repo"""
    for f, l, fn in loc or []:
        if f.startswith(REPO + "/") or f.startswith("/repo/"):
            return "%s:%d (%s)" % (f, l, fn)
    if loc:
        return "%s:%d (%s)" % tuple(loc[0])
    return "?"


class Report:
    def __init__(self, prop, tier, rule):
        self.prop, self.tier, self.rule = prop, tier, rule
        self.t0 = time.time()
        self.obligations = {}
        self.viol = []
        self.listed = []
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.undecided = []
        self.known = load_known(prop)

    def ok(self, rule, n=1):
        self.obligations[rule] = self.obligations.get(rule, 0) + n

    def sample(self, **kw):
        if len(self.samples) < 40:
            self.samples.append(kw)

    def bad(self, rule, where, what, key=None):
        """key identifies the construct for the known-findings file"""
        self.obligations[rule] = self.obligations.get(rule, 0) + 1
        key = key or (rule + "|" + where)
        for k in self.known:
            if k == key:
                if key not in [x[0] for x in self.listed]:
                    self.listed.append((key, what))
                return
        self.viol.append(dict(rule=rule, where=where, what=what, key=key))

    def merge(self, o):
        for k, v in o.obligations.items():
            self.obligations[k] = self.obligations.get(k, 0) + v
        self.viol += o.viol
        self.undecided += o.undecided
        for x in o.listed:
            if x[0] not in [y[0] for y in self.listed]:
                self.listed.append(x)
        self.samples = (self.samples + o.samples)[:40]

    def need(self, rule, n=1):
        """a rule that matched fewer instances than it must says nothing"""
        if self.obligations.get(rule, 0) < n and not self.viol and not self.undecided:
            raise ToolError("rule %s matched %d instances, needs at least %d: its anchor is gone" % (rule, self.obligations.get(rule, 0), n))

    def finish(self, explanation):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tot = sum(self.obligations.values())
        cov = dict(explanation=explanation, obligations_checked=tot, per_rule=self.obligations, rule=self.rule,
                   samples=self.samples, notes=self.notes, known_findings=[k for k, _ in self.listed])
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=cov, wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(self.viol))
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.prop, "w"), indent=1)
        for k, w in self.listed:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if self.viol:
            rp = VERIF + "/evidence/%s.violation.json" % self.prop
            json.dump(self.viol, open(rp, "w"), indent=1)
            for v in self.viol[:25]:
                print("  %s: %s\n      %s" % (v["rule"], v["where"], v["what"]))
            if len(self.viol) > 25:
                print("  ... %d more" % (len(self.viol) - 25))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.undecided:
            raise ToolError("%d entries undecided: %s" % (len(self.undecided), "; ".join(self.undecided[:5])))
        print("%s: %d obligations hold (%s), %.1f s" % (self.prop, tot, ", ".join("%s=%d" % kv for kv in sorted(self.obligations.items())), time.time() - self.t0))
        return 0


def load_known(prop):
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"known: property=(\S+) key=(.*?)(?: ## .*)?$", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out
