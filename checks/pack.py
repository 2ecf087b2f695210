from common import *
from vg import Graph, Fn
from compare import compare
import pack_gen
from ranges import OUT

PRINT = {k: v for k, v in OUT.items() if "<<" in k and "basic_string" not in k}


def run_groups(rep, tier, groups, configs):
    jobs = [(T, n, cfg) for T, n in pack_gen.combos(tier) for cfg in configs]

    def one(j):
        T, n, (cname, fl) = j
        d = pack_gen.gen(T, n)
        d.o = [l for l in d.o]
        keep = [k for k, (g, w) in d.groups.items() if g in groups]
        if not keep:
            return None
        ks = set(keep) | {"r_" + k[2:] for k in keep}
        import re as _re
        lines = []
        for l in d.o:
            m = _re.match(r"X \S.*? ([tr]_\w+)\(", l)
            if m and m.group(1) not in ks:
                continue
            lines.append(l)
        J = emit("pk_%s_%d_%s" % (T.replace(" ", ""), n, cname), pack_gen.PRE + "\n".join(lines) + "\n", fl, opaque=list(PRINT), pureref=PRINT)
        fns = {f["name"]: f for f in J["functions"]}
        sub = Report(rep.prop, tier, "")
        for o in J["oob"]:
            sub.bad(d.groups[keep[0]][0], o["loc"], "index %d of an array of %d entries is %s on Pack<%s,%d> (%s)" % (o["idx"], o["n"], "written" if o["store"] else "read", T, n, cname), key="array|" + o["loc"].rsplit("(", 1)[-1])
        for k in keep:
            G = Graph()
            Tn = Fn(G, fns[k], opts=dict(pureref=PRINT))
            Rn = Fn(G, fns["r_" + k[2:]], opts=dict(pureref=PRINT))
            df = compare(G, Tn, Rn)
            g, what = d.groups[k]
            if df:
                for where, txt in df[:2]:
                    sub.bad(g, where, "%s on Pack<%s,%d> (%s): %s" % (what, T, n, cname, txt[:1500]), key="%s|%s" % (g, k[2:]))
            else:
                sub.ok(g, max(1, Tn.ncells))
                if n == 4 and T == "double":
                    sub.sample(api=what, lanes=n, cells=Tn.ncells)
        return sub
    for res in pmap(one, jobs):
        if res is not None:
            rep.merge(res)


GROUPS = {
    "P01": (("arith", "lanes"), dict(arith=1000, lanes=50)),
    "P02": (("reduce", "math"), dict(reduce=60, math=100)),
    "P03": (("mask",), dict(mask=300)),
    "P04": (("masked", "where"), dict(masked=200, where=300)),
}
WHAT = ("For every entry of the Pack/Mask API an instantiation per scalar type and lane count is compiled together with a "
        "lane-by-lane specification on raw arrays; both are brought to gated SSA over the same symbolic inputs and every memory "
        "cell, result and failure condition is compared as a normal form (rule: value-graph equality, hence equality for every "
        "input value, aliasing cases included as separate entries). ")


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of the API instantiation with its lane-wise specification")
    groups, need = GROUPS[pid]
    configs = [("rel", flags(True)), ("dbg", flags(False))]
    if pid == "P02":
        configs.append(("nobfb", flags(True, bfb=False)))
    run_groups(rep, tier, set(groups), configs)
    for k, v in need.items():
        rep.need(k, v)
    rep.assumptions += ["libm functions are uninterpreted (same callee, same argument => same value)",
                        "clang's resolution of templates and overloads stands for the production compiler's"]
    return rep.finish(WHAT)
