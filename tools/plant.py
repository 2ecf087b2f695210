#!/usr/bin/env python3
"""plant.py ID PROP: (edits already described in /tmp/plant/ID.py) creates
seeded/ID from an edit list, confirms it in /repo (build, tests, demo both
ways, check) and undoes it."""
import json, os, subprocess, sys
V = "/verif"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)


def plant(id, prop, edits, demo, needs, breaks, files=None, mpi=0, libs="", notest=False, flags=""):
    d = "%s/seeded/%s" % (V, id)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    open(d + "/demo.cpp", "w").write(demo)
    cc = "g++"
    run = '"$t/demo"'
    if mpi:
        cc = "mpicxx -DEKAT_ENABLE_MPI -DEKAT_MPI_ERRORS_ARE_FATAL"
        run = 'mpirun --allow-run-as-root --oversubscribe -np %d "$t/demo"' % mpi
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds demo.cpp against the sources in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
inc=""
for k in core kokkos pack algorithm expression logging parser testing-support; do inc="$inc -I$PWD/src/$k"; done
%s -std=c++17 -O1 -g -w -fopenmp -DKOKKOS_DEPENDENCE -DKOKKOS_ENABLE_CXX17 -DEKAT_HAS_KOKKOS -DEKAT_DEFAULT_BFB %s $inc "$d/demo.cpp" -o "$t/demo" %s -lkokkoscore -ldl || exit 3
cd "$t" && export OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} OMP_PROC_BIND=false && timeout 120 %s
''' % (cc, flags, libs, run))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r0.returncode:
        print(id, "DEMO FAILS ON CLEAN", r0.returncode, (r0.stdout + r0.stderr)[-1500:])
        return
    try:
        for f, o, n in edits:
            p = "/repo/" + f
            s = open(p).read()
            if s.count(o) < 1:
                print(id, "EDIT NOT APPLICABLE", o[:70])
                return
            open(p, "w").write(s.replace(o, n, 1))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(id, "DOES NOT BUILD", (b.stdout + b.stderr)[-1500:])
            return
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        o = json.load(open("/tmp/plant.json"))
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"])
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        c = sh("python3 checks/run.py %s --tier quick" % prop, cwd=V)
        print(id, prop, "tests:", "pass" if not miss else "FAIL %s" % sorted(miss)[:3], "demo:", r1.returncode, "check:", {0: "MISSED", 1: "caught"}.get(c.returncode, "rc%d" % c.returncode))
        if r1.returncode in (0, 3):
            print((r1.stdout + r1.stderr)[-800:])
        if c.returncode != 1:
            print((c.stdout + c.stderr)[-800:])
        else:
            print("   ", "\n    ".join(l[:300] for l in c.stdout.splitlines()[:2]))
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
