"""P20: team policies have the requested shape, workspace slots are exclusive."""
from pairs import *
from paths import Walk, Limit

PRE = r'''
#include <Kokkos_Core.hpp>
#define RS __restrict
using u = unsigned long;
#include "ekat_team_policy_utils.hpp"
using namespace ekat;
extern "C" [[noreturn]] void die();
'''
SP = {"omp": ("Kokkos::OpenMP", 2), "serial": ("Kokkos::Serial", 1), "gpu": ("EkatGpuSpace", 4)}
SRC_ = "src/kokkos/ekat_team_policy_utils.hpp"


def kk(gpu=None, omp=True, uvm=False, mimic=False, nd=True):
    fl = ["-I", VERIF + "/shim/kk"] + flags(nd, mpi=False, kokkos=True)
    if omp:
        fl += ["-DKOKKOS_ENABLE_OPENMP"]
    if gpu:
        fl += ["-DEKAT_ENABLE_GPU", "-DKOKKOS_ENABLE_" + gpu]
    if uvm:
        fl += ["-DKK_UVM"]
    if mimic:
        fl += ["-DEKAT_MIMIC_GPU"]
    return fl


def policies(rep, gpu, uvm, mimic):
    d = Drv(PRE + "template<class P> void put(const P& p, int* RS o){ o[0]=p.league_size(); o[1]=p.team_size(); }\n"
                  "template<class P,class E> constexpr bool on = std::is_same<typename P::execution_space,E>::value;\n")
    note = " [%s%s%s]" % (gpu or "host", " uvm" if uvm else "", " mimic-gpu" if mimic else "")
    I = [("int* RS o", ""), ("int ni", ""), ("int nk", "")]
    IR = [(a, "") for a, _ in I]
    g = gpu and "Kokkos::" + {"CUDA": "Cuda"}.get(gpu, gpu)

    def e(n, sp, call, ref, what, hd=""):
        d.e("policy", n, "void", I, "auto p=TeamPolicyFactory<%s>::%s%s(ni,nk); static_assert(on<decltype(p),%s>,\"TYPEWIT %s: execution space\"); put(p,o);" % (sp, call, hd, "Kokkos::Serial" if "Host" in hd and sp == g else sp, n),
            ref, what)
    for sp, idn in ([("Kokkos::OpenMP", "o"), ("Kokkos::Serial", "s"), ("Kokkos::Threads", "t")]):
        idx = {"o": 2, "s": 1, "t": 3}[idn]
        df = "int mt=kk_concurrency(%d); o[0]=ni; o[1]=mt<7?mt:7;" % idx if mimic else "o[0]=ni; o[1]=1;"
        for hd in ("", "<Host>", "<Device>"):
            k = idn + hd.strip("<>")
            e("def" + k, sp, "get_default_team_policy", df, "get_default_team_policy, host space", hd)
            e("force" + k, sp, "get_team_policy_force_team_size", "o[0]=ni; o[1]=nk;", "get_team_policy_force_team_size, host space", hd)
            e("scan" + k, sp, "get_thread_range_parallel_scan_team_policy", df, "get_thread_range_parallel_scan_team_policy, host space", hd)
    if gpu:
        MIN = "(%s<128?%s:128)"
        w = "32*((nk+31)/32)"
        pp = "int q=1; while(q<=nk) q*=2; q/=2; int ts=32*((q+31)/32);"
        for hd in ("", "<Device>") + (("<Host>",) if uvm else ()):
            k = "g" + hd.strip("<>")
            h = hd == "<Host>"
            e("def" + k, g, "get_default_team_policy", "o[0]=ni; o[1]=%s;" % ("1" if h else "(128<%s)?128:%s" % (w, w)), "get_default_team_policy, GPU", hd)
            e("force" + k, g, "get_team_policy_force_team_size", "o[0]=ni; o[1]=%s;" % ("1" if h else "nk"), "get_team_policy_force_team_size, GPU", hd)
            e("scan" + k, g, "get_thread_range_parallel_scan_team_policy", "o[0]=ni; o[1]=1;" if h else pp + " o[0]=ni; o[1]=(128<ts)?128:ts;", "get_thread_range_parallel_scan_team_policy, GPU", hd)
            if not h:
                d.alt("scan" + k, "int q=1; while(2*q<=nk) q*=2; int ts=32*((q+31)/32); o[0]=ni; o[1]=(128<ts)?128:ts;")
    run_pairs(rep, "pol%s%d%d" % (gpu, uvm, mimic), d, kk(gpu, True, uvm, mimic), note=note, pure=["^kk_concurrency"])
    if gpu and not uvm:
        g_ok = "auto f(){ return TeamPolicyFactory<%s>::get_default_team_policy<Device>(1,1); }" % g
        g_no = "auto f(){ return TeamPolicyFactory<%s>::get_default_team_policy<Host>(1,1); }" % g
        e = compiles("uvm_ok", PRE + g_ok, kk(gpu))
        if e:
            rep.bad("policy", SRC_, "a device policy does not compile: " + e[:300], "uvm")
        elif not compiles("uvm_no", PRE + g_no, kk(gpu)):
            rep.bad("policy", SRC_, "a host policy of a GPU space without UVM is accepted", "uvm")
        else:
            rep.ok("policy")


def counts(rep, gpu, nd):
    """numbers of teams, threads and slots as functions of the policy"""
    d = Drv(PRE)
    note = " [%s%s]" % (gpu or "host", "" if nd else " debug")
    spaces = [("Kokkos::OpenMP", "o", 2), ("Kokkos::Serial", "s", 1), ("Kokkos::Threads", "t", 3)]
    if gpu:
        spaces = [("EkatGpuSpace", "g", {"CUDA": 4, "HIP": 5, "SYCL": 6}[gpu]), ("Kokkos::OpenMP", "o", 2)]
    for sp, n, idx in spaces:
        for T, t in (("double", "d"), ("float", "f"), ("int", "i")):
            half = n == "g" and T != "float"
            I = [("int ls", ""), ("int ts", "")]
            P = "Kokkos::TeamPolicy<%s> p(ls,ts); TeamUtils<%s,%s> t(p%%s); return t.%%s();" % (sp, T, sp)
            C = "int c=kk_concurrency(%d)%s; int nt=c/ts; " % (idx, "/2" if half else "")
            chk = "" if nd else "int real=c/nt; "
            cut = "if(nt>ls) nt=ls; "
            die = "" if nd else "if(nt<=0) die(); if(real<=0) die(); "
            if n != "g":
                d.e("counts", "teams" + n + t, "int", I, P % ("", "get_num_concurrent_teams"), C + chk + cut + die + "return nt;", "get_num_concurrent_teams: %s, %s" % (sp, T))
                d.e("counts", "thr" + n + t, "int", I, P % ("", "get_max_concurrent_threads"), C + chk + cut + die + "return c;", "get_max_concurrent_threads: %s, %s" % (sp, T))
                d.e("counts", "slots" + n + t, "int", I + [("double f", "")], P % (",f", "get_num_ws_slots"), C + chk + cut + die + "return nt;", "get_num_ws_slots: %s, %s" % (sp, T))
            elif nd:
                for fa, f in (("", "1.0"), (",f", "f")):
                    ref = C + cut + "int s = ls>nt ? (int)(%s*nt>ls ? (double)ls : %s*nt) : nt; bool sh=ls>s; %s kk_alloc(sh ? 4ul*(u)(long)s : 0ul); %s if(sh) kk_pool(); o[0]=s; o[1]=nt; o[2]=c;" % (f, f, "%s", "%s")
                    d.e("counts", "slots" + n + t + ("f" if fa else ""), "void", [("int* RS o", "")] + I + [("double f", "")],
                        "Kokkos::TeamPolicy<%s> p(ls,ts); TeamUtils<%s,%s> t(p%s); o[0]=t.get_num_ws_slots(); o[1]=t.get_num_concurrent_teams(); o[2]=t.get_max_concurrent_threads();" % (sp, T, sp, fa),
                        ref % ("", "if(!(f>=1.0)) die();" if fa else ""), "slots, teams and threads: %s, %s" % (sp, T))
                    if fa:
                        d.alt("slots" + n + t + "f", ref % ("if(!(f>=1.0)) die();", ""))
            if n == "g" and nd:
                # sharing begins exactly when the league has more teams than slots
                A = "int* sl=(int*)kk_alloc(sh ? 4ul*(u)(long)s : 0ul); if(!(f>=1.0)) die(); if(sh) kk_pool(); if(sh){ kk_barrier(); %s *(volatile int*)&sl[k]=0; kk_single_end(); } return 0;"
                H = C + cut + "int s = ls>nt ? (int)(f*nt>ls ? (double)ls : f*nt) : nt; bool sh=ls>s; "
                d.e("counts", "share" + t, "int", I + [("double f", ""), ("int k", "")],
                    "Kokkos::TeamPolicy<%s> p(ls,ts); TeamUtils<%s,%s> t(p,f); Kokkos::TeamMember m{0,ls,0,ts}; t.release_workspace_idx(m,k); return 0;" % (sp, T, sp),
                    H + A % "kk_single_begin(); Kokkos::memory_fence();", "sharing of slots: %s, %s" % (sp, T))
                d.alt("share" + t, H + A % "Kokkos::memory_fence(); kk_single_begin();")
            if n == "o":
                d.e("counts", "idx" + n + t, "int", I + [("int who", "")], "Kokkos::TeamPolicy<%s> p(ls,ts); TeamUtils<%s,%s> t(p); Kokkos::TeamMember m{0,ls,0,ts}; return t.get_workspace_idx(m);" % (sp, T, sp),
                    C + "int real=c/nt; " + cut + ("" if nd else "if(nt<=0) die(); if(real<=0) die(); ") + "return omp_get_thread_num()/real;", "get_workspace_idx: %s, %s" % (sp, T))
                d.e("counts", "rel" + n + t, "void", I, "Kokkos::TeamPolicy<%s> p(ls,ts); TeamUtils<%s,%s> t(p); Kokkos::TeamMember m{0,ls,0,ts}; t.release_workspace_idx(m,0);" % (sp, T, sp),
                    "" if nd else C + "int real=c/nt; " + cut + "if(nt<=0) die();", "release_workspace_idx: %s, %s" % (sp, T))
            elif n == "s":
                d.e("counts", "idx" + n + t, "int", I, "Kokkos::TeamPolicy<%s> p(ls,ts); TeamUtils<%s,%s> t(p); Kokkos::TeamMember m{ls-1,ls,0,ts}; return t.get_workspace_idx(m);" % (sp, T, sp),
                    ("" if nd else C + cut + "if(nt<=0) die(); ") + "return 0;", "get_workspace_idx: %s, %s" % (sp, T))
            d.e("counts", "cpy" + n + t, "int", I, "Kokkos::TeamPolicy<%s> p(ls,ts); TeamUtils<%s,%s> a(p), b; b=a; return b.get_num_ws_slots()-a.get_num_ws_slots()+b.get_num_concurrent_teams()-a.get_num_concurrent_teams();" % (sp, T, sp),
                ("" if nd else C + chk + cut + die) + "return 0;", "copies keep the counts: %s, %s" % (sp, T)) if n != "g" else None
    run_pairs(rep, "cnt%s%d" % (gpu, nd), d, kk(gpu, True, nd=nd), note=note, pure=["^kk_concurrency", "^omp_get_thread_num", "^std::chrono"], opaque=[r"^std::", r"^__cxa", r"^operator"], fail=["^void ekat::throw_exception<", "^die$"], pureref={})


LOCK = PRE + r'''
using TUd = TeamUtils<double,EkatGpuSpace>; using TUf = TeamUtils<float,EkatGpuSpace>;
extern "C" int t_geti(const TUd* t, const Kokkos::TeamMember* m){ return t->get_workspace_idx(*m); }
extern "C" int t_getf(const TUf* t, const Kokkos::TeamMember* m){ return t->get_workspace_idx(*m); }
extern "C" void t_reli(const TUd* t, const Kokkos::TeamMember* m, int i){ t->release_workspace_idx(*m,i); }
extern "C" void t_relf(const TUf* t, const Kokkos::TeamMember* m, int i){ t->release_workspace_idx(*m,i); }
extern "C" int t_n(const TUd* t){ return t->get_num_ws_slots(); }
'''
OPQ = [r"^std::", r"^__cxa", r"^operator", r"^__gnu"]
CAS = "Kokkos::atomic_compare_exchange"


def loc(c):
    return repoloc(c["loc"]) if c else SRC_


def lock(rep, gpu):
    """the slot protocol: acquire by compare-exchange 0->1, release by storing 0"""
    J = emit("lock" + gpu, LOCK, kk(gpu), opaque=OPQ, entry="^t_")
    F = {f["name"]: f for f in J["functions"]}
    nslots = [p.ret for p in Walk(F["t_n"]).run()][0]
    note = " [%s]" % gpu
    bases, flag = set(), set()
    for nm in ("t_geti", "t_getf"):
        ps = Walk(F[nm], unroll=3, stores=True).run()
        share = None
        for p in ps:
            evs = [c for c in p.calls if c["dem"].startswith(("Kokkos::atomic", "<atomicrmw", "<cmpxchg", "<store>"))]
            cas = [c for c in evs if c["dem"].startswith(CAS + "(") or c["dem"].startswith(CAS + "_strong")]
            other = [c for c in evs if c not in cas]

            def bad(what, c=None):
                rep.bad("acquire", loc(c or (cas[-1] if cas else None)), "get_workspace_idx%s: %s" % (note, what), "acquire")
            if p.end != "ret":
                bad("ends in %s" % p.end)
                continue
            if other:
                bad("changes a slot by something other than a compare-exchange", other[0])
                continue
            if not cas:
                # not sharing: every team has its own slot
                if p.ret != ("load", ("a", 1), 0, 0):
                    bad("without sharing the slot must be the team's league rank, found %s" % (p.ret,))
                rep.ok("acquire")
                share = share or {k for k in p.facts if k[0] != "call"}
                continue
            facts = [k for k, _, _ in p.order]
            # the chain of attempts
            okc = True
            ret = p.ret
            flag |= {k for k in p.facts if k[0] == "load" or k[0] == "e" and any(isinstance(x, tuple) and x[0] == "load" and x[1] == ("a", 0) for x in k[2:])}
            for k, c in enumerate(cas):
                last = k == len(cas) - 1
                if c["args"][1:] != [("c", 0), ("c", 1)]:
                    bad("a slot is taken by changing %s to %s, must be 0 to 1" % (c["args"][1], c["args"][2]), c)
                    okc = False
                    break
                strong = c["dem"].startswith(CAS + "_strong")
                won = p.facts.get(c["res"]) if strong else p.facts.get(("e", "icmp eq", c["res"], ("c", 0)))
                if won is not last:
                    bad("the %s attempt is followed by %s" % ("lost" if won is False else "won" if won else "unexamined", "a return" if last else "another attempt"), c)
                    okc = False
                    break
                a = c["args"][0]
                idx = a[3] if a[0] == "e" and a[1] == "gep" else ("c", 0) if a[0] in ("p", "load") else None
                if idx is None or a[0] == "e" and a[2][0] != "load":
                    bad("the attempted slot is not an element of the slot array: %s" % (a,), c)
                    okc = False
                    break
                inr = idx[0] == "e" and idx[1] in ("srem", "urem") and idx[3] == nslots or idx[0] == "call" and idx[1].startswith("kk_draw_range")
                if idx[0] == "call" and inr:
                    cc = next(x for x in p.calls if x["res"] == idx)
                    inr = cc["args"] == [("c", 0), nslots]
                if not inr:
                    bad("the attempted slot %s is not reduced to the number of slots" % (idx,), c)
                    okc = False
                    break
                bases.add(a[2] if a[0] == "e" else a)
                if last and ret != idx:
                    bad("the returned slot %s is not the one that was taken (%s)" % (ret, idx), c)
                    okc = False
            if not okc:
                continue
            pos = p.calls.index(cas[-1])
            names = [c["dem"].split("(")[0] for c in p.calls]
            if "Kokkos::memory_fence" not in names[pos:]:
                bad("no memory fence between taking the slot and using it", cas[-1])
                continue
            b, e = [k for k, x in enumerate(names) if x == "kk_single_begin"], [k for k, x in enumerate(names) if x == "kk_single_end"]
            if len(b) != 1 or len(e) != 1 or any(not b[0] < p.calls.index(c) < e[0] for c in cas):
                bad("every thread of the team takes a slot of its own", cas[0])
                continue
            rep.ok("acquire", len(cas) + 2)
        if share is None:
            rep.bad("acquire", SRC_, "get_workspace_idx%s: no path for teams that do not share slots" % note, "acquire")
    for nm in ("t_reli", "t_relf"):
        n = [0, 0]
        for p in Walk(F[nm], stores=True).run():
            evs = [c for c in p.calls if c["dem"].startswith(("Kokkos::atomic", "<atomicrmw", "<cmpxchg", "<store>"))]
            names = [c["dem"].split("(")[0] for c in p.calls]

            def bad(what, c=None):
                rep.bad("release", loc(c or (p.calls[0] if p.calls else None)), "release_workspace_idx%s: %s" % (note, what), "release")
            if not evs:
                if any(not (k[0] == "load" or k[0] == "e") for k in p.facts):
                    bad("does not release on every path")
                n[0] += 1
                rep.ok("release")
                continue
            n[1] += 1
            if len(evs) != 1:
                bad("writes %d times" % len(evs), evs[1])
                continue
            c = evs[0]
            val, adr = (c["args"][0], c["args"][1]) if c["dem"] == "<store>" else (c["args"][1], c["args"][0]) if c["dem"].split("(")[0] in ("Kokkos::atomic_exchange", "Kokkos::atomic_store") else (c["args"][2], c["args"][0]) if c["dem"].startswith(CAS) and c["args"][1] == ("c", 1) else (None, None)
            if val != ("c", 0):
                bad("must set the slot to 0, found %s" % (val,), c)
                continue
            if not (adr[0] == "e" and adr[1] == "gep" and adr[2][0] == "load" and adr[3] == ("a", 2) and adr[-1] == 0):
                bad("must free the given slot, frees %s" % (adr,), c)
                continue
            if adr[2] not in bases:
                bad("frees an element of another array than slots are taken from", c)
                continue
            if not any(t in flag for t in p.facts):
                bad("frees a slot under another condition (%s) than it is taken under" % (", ".join(map(str, p.facts)) or "always"), c)
                continue
            k = p.calls.index(c)
            if "Kokkos::memory_fence" not in names[:k]:
                bad("no memory fence before the slot is freed", c)
                continue
            if "kk_barrier" not in names[:k]:
                bad("the slot is freed before all threads of the team are done with it (no barrier)", c)
                continue
            if names.index("kk_barrier") > (names.index("kk_single_begin") if "kk_single_begin" in names else 1 << 30):
                bad("the team barrier is inside the single region", c)
                continue
            b = names.index("kk_single_begin") if "kk_single_begin" in names else None
            if b is None or not b < k < names.index("kk_single_end"):
                bad("the slot is freed by every thread of the team", c)
                continue
            rep.ok("release", 4)
        if not n[1] or not n[0]:
            rep.bad("release", SRC_, "release_workspace_idx%s: %s" % (note, "never releases" if not n[1] else "releases without sharing"), "release")
    rep.sample(api="slot protocol" + note, slots=str(nslots))


def part(x):
    k, a = x
    rep = Report("P20", "quick", "")
    {"pol": policies, "cnt": counts, "lock": lock}[k](rep, *a)
    return rep


def check(pid, tier):
    rep = Report(pid, tier, "value-graph equality of shapes and counts; typestate of the slot protocol on every path")
    J = [("pol", (None, 0, 0)), ("pol", (None, 0, 1)), ("pol", ("CUDA", 0, 0)), ("pol", ("CUDA", 1, 0)), ("cnt", (None, True)), ("cnt", (None, False)), ("cnt", ("CUDA", True)), ("lock", ("CUDA",)), ("lock", ("HIP",))]
    if tier == "thorough":
        J += [("pol", ("HIP", 0, 0)), ("cnt", ("HIP", True)), ("lock", ("SYCL",)), ("pol", ("SYCL", 0, 0))]
    for r in pmap(part, J):
        rep.merge(r)
    for g, n in (("policy", 100), ("counts", 80), ("acquire", 20), ("release", 8)):
        rep.need(g, n)
    rep.assumptions += ["Kokkos replaced by marked stand-ins: team sizes do not exceed the concurrency (Kokkos rejects others), compare-exchange is atomic, thread numbers of a team are consecutive, random draws are not negative"]
    return rep.finish("league and team sizes of every policy and the numbers of teams, threads and slots compared with their formulas for every league size, team size, concurrency and overprovision factor, per execution space and value type; on every path, a slot is taken by one successful compare-exchange of 0 to 1 on the returned in-range slot by one thread of the team, followed by a fence, and freed by one store of 0 after a team barrier and a fence")
