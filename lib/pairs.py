"""Run a driver of t_X / r_X entry pairs through the value-graph comparison."""
import re
from common import *
from vg import Graph, Fn, Blowup, Bounded
from compare import compare


ENTRY, ALT, TOTAL = 100, 25, 500      # seconds for one entry, for one report


class Drv:
    """collects entries; `same` parameters for both unless given separately"""

    def __init__(self, pre):
        self.pre = pre
        self.o = []
        self.what = {}
        self.nonneg = {}
        self.sig = {}
        self.alts = {}

    def raw(self, s):
        self.o.append(s)

    def e(self, group, name, ret, params, tbody, rbody, what):
        tp = ", ".join("%s %s" % (p[0], p[-1]) for p in params)
        rp = ", ".join("%s %s" % (p[1] if len(p) == 3 else p[0], p[-1]) for p in params)
        self.o.append('extern "C" %s t_%s(%s){ %s }' % (ret, name, tp, tbody))
        self.o.append('extern "C" %s r_%s(%s){ %s }' % (ret, name, rp, rbody))
        self.what[name] = (group, what)
        self.sig[name] = "%s r_%%s(%s)" % (ret, rp)
        self.nonneg[name] = {i for i, p in enumerate(params) if p[0].startswith("unsigned") or p[0] in ("u", "size_t")}

    def alt(self, name, rbody):
        """another definition of the same result: matching any one is enough"""
        n = "%s__%d" % (name, len(self.alts.setdefault(name, [])) + 2)
        self.alts[name].append(n)
        self.o.append('extern "C" ' + self.sig[name] % n + "{ %s }" % rbody)

    def text(self):
        return self.pre + "\n".join(self.o) + "\n"


def run_pairs(rep, name, drv, fl, opaque=(), pure=(), opts=None, note="", sets=False, ropts=None, inline=(), extra=(), fail=(), pureref=None, values=False, each=None):
    try:
        J = emit(name, drv.text(), fl, opaque=opaque, pure=pure, inline=inline, extra=extra, fail=fail, pureref=pureref or {})
    except WitnessError as w:
        for nm, txt in w.args[0][:3]:
            g, what = drv.what.get(nm, ("type", "types"))
            rep.bad(g, what.split(":")[0], "%s%s: static assertion failed %s" % (what, note, txt), key="%s|%s" % (g, nm))
        return
    fns = {f["name"]: f for f in J["functions"]}
    for o in J.get("oob", ()):
        if o["loc"].startswith((REPO + "/", "/repo/")):
            rep.bad(next(iter(drv.what.values()))[0], o["loc"], "index %d of an array of %d entries is %s%s" % (o["idx"], o["n"], "written" if o["store"] else "read", note), key="array|" + o["loc"].rsplit("(", 1)[-1])
    if each:
        each(J)
    for nm, (g, what) in drv.what.items():
        if "t_" + nm not in fns or "r_" + nm not in fns:
            raise ToolError("entry %s missing" % nm)
        if time.time() - rep.t0 > TOTAL:
            rep.undecided.append(nm + " (time)")
            continue
        G = Graph()
        G.liftmax = (opts or {}).get("liftmax", 600)
        G.local_statics = bool(opts and opts.get("local_statics"))
        df = None
        nn = dict(nonneg=drv.nonneg.get(nm, ()), pureref=pureref or {})
        try:
            with budget(ENTRY):
                T = Fn(G, fns["t_" + nm], pure=pure, opts={**(opts or {}), **nn})
        except (Blowup, Bounded, Budget) as e:
            rep.undecided.append("%s (%s)" % (nm, type(e).__name__))
            continue
        for rn in [nm] + drv.alts.get(nm, []):
            # a form whose own analysis does not end is not the form in the code
            try:
                with budget(ENTRY if df is None else ALT):
                    R = Fn(G, fns["r_" + rn], pure=pure, opts={**(ropts or opts or {}), **nn})
                    d1 = compare(G, T, R, sets=sets, values=values)
            except (Blowup, Bounded, Budget) as e:
                df = df or type(e).__name__
                continue
            if d1 and os.environ.get("VERIF_ALTS"):
                print("   ", rn, [t[:700] for _, t in d1[:3]])
            if df is None or isinstance(df, str) or not d1:
                df = d1
            if not d1:
                break
        if isinstance(df, str):
            rep.undecided.append("%s (%s)" % (nm, df))
            continue
        if df:
            for where, txt in df[:2]:
                rep.bad(g, where, "%s%s: %s" % (what, note, txt[:1500]), key="%s|%s" % (g, nm))
        else:
            rep.ok(g, max(1, T.ncells))
            rep.sample(api=what + note, cells=T.ncells, loops=len(T.loops), effects=len(T.effects))
