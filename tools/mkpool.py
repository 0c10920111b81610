#!/usr/bin/env python3
"""writes the TLC configurations of the pool model; with --mutants shows that each switch matters"""
import os, sys, subprocess, re
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
SW = ["ByIndex", "FirstCounts", "WaitRound", "Release"]
BASE = ["EachOnce", "NothingLeft"]
KIND = {"path": ["PathRight", "StartExists"], "kappa": ["BestRight"], "grid": ["SamePartitions"]}
def cfg(name, kind, sizes, w, rounds, values="{1}", inv=(), props=(), spec="Spec", off=(), gen=False):
    s = 'SPECIFICATION %s\nCONSTANTS\n Kind = "%s"\n Sizes = %s\n W = %d\n Rounds = %d\n Values = %s\n' % (spec, kind, sizes, w, rounds, values)
    for x in SW: s += " %s = %s\n" % (x, "FALSE" if x in off else "TRUE")
    if inv: s += "INVARIANTS " + " ".join(inv) + "\n"
    if props: s += "PROPERTIES " + " ".join(props) + "\n"
    if gen: s += "CONSTRAINT Gen\n"
    open(os.path.join(D, name + ".cfg"), "w").write(s)
def main():
    cfg("Pool_C13", "path", "{1, 2, 3, 5, 7}", 4, 1, inv=BASE + KIND["path"])
    cfg("Pool_C13_live", "path", "{1, 2, 3, 4}", 3, 1, props=["WorkersEnd"], spec="FairSpec")
    cfg("Pool_C22", "kappa", "{0, 1, 2, 3, 4, 6}", 3, 1, "{0, 2}", inv=BASE + KIND["kappa"])
    cfg("Pool_C22_live", "kappa", "{0, 1, 2, 3}", 3, 1, props=["WorkersEnd"], spec="FairSpec")
    cfg("Pool_C23", "grid", "{1, 2, 3, 5, 6}", 4, 3, inv=BASE + KIND["grid"])
    cfg("Pool_C23_live", "grid", "{1, 2, 3}", 2, 2, props=["WorkersEnd"], spec="FairSpec")
    cfg("Pool_C13_thorough", "path", "{8, 10, 12}", 6, 1, inv=BASE + KIND["path"])
    cfg("Pool_C22_thorough", "kappa", "{4, 5, 7}", 4, 1, "{0, 1, 2}", inv=BASE + KIND["kappa"])
    cfg("Pool_C23_thorough", "grid", "{5, 8, 11}", 5, 4, inv=BASE + KIND["grid"])
    cfg("PoolGen_path", "path", "{2, 3, 4, 5}", 5, 1, inv=BASE, gen=True)
    cfg("PoolGen_kappa", "kappa", "{1, 2, 3, 4}", 4, 1, "{0, 1, 2}", inv=BASE, gen=True)
if __name__ == "__main__":
    main()
    if "--mutants" in sys.argv:
        for sw, kind, inv, pr in [("ByIndex", "path", KIND["path"], []), ("FirstCounts", "kappa", KIND["kappa"], []), ("WaitRound", "grid", KIND["grid"], []), ("Release", "path", [], ["WorkersEnd"])]:
            cfg("_mut", kind, "{3, 4}", 2, 2 if kind == "grid" else 1, "{0, 2}", inv, pr, "FairSpec" if pr else "Spec", off=(sw,))
            r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC", "-noGenerateSpecTE", "-config", "_mut.cfg", "Pool.tla"], capture_output=True, text=True, cwd=D)
            print(sw, re.findall(r"Invariant \w+ is violated|Temporal properties were violated|Deadlock reached|No error", r.stdout))
        os.remove(os.path.join(D, "_mut.cfg"))
