#!/usr/bin/env python3
"""shows that the design models are not vacuous: with a switch turned off (for BnB each is a defect of the
pinned commit) TLC finds a violation (the pools: mkpool.py --mutants)"""
import sys, os, subprocess, re, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkcfg
A = mkcfg.main()
T = [("ScoreRoot", "{6}", "{0, 4}", "{1, 5}", "CutZero", "{100}", A, [], "Spec"),
     ("LenFirst", "{6}", "{0, 4}", "{0}", "CutZero", "{100}", A, [], "Spec"),
     ("ListGuard", "{6}", "{0, 4}", "{0}", "CutBoth", "{100}", A, [], "Spec"),
     ("LcsRowRule", "{2, 3}", "{0, 4}", "{5, 7}", "CutZero", "{100}", A, [], "Spec"),
     ("SignedCutoff", "{6}", "{0, 4}", "{0}", "CutBoth", "{100}", A, [], "Spec"),
     ("BufferedReady", "{6}", "{0}", "{0}", "CutZero", "{100}", [], ["Terminates", "WorkersEnd"], "FairSpec"),
     ("CurrentBest", "{6}", "{0, 4}", "{0}", "CutZero", "{100}", A, ["ProgressMonotone"], "Spec"),
     ("PruneOnce", "{6}", "{0, 4}", "{0, 1}", "CutZero", "{100}", A, ["ProgressMonotone"], "Spec")]
def tlc(mod, name):
    r = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC", "-workers", "4",
                        "-noGenerateSpecTE", "-config", "_mut.cfg", mod], capture_output=True, text=True, cwd=mkcfg.D)
    m = re.findall(r"Invariant \w+ is violated|Action property \w+ is violated|Temporal properties were violated|Deadlock reached|No error", r.stdout)
    print(name, "->", m[:2], flush=True)
def switch(cfg, k, mod=None):
    s = open(os.path.join(mkcfg.D, cfg + ".cfg")).read()
    assert k + " = TRUE" in s
    open(os.path.join(mkcfg.D, "_mut.cfg"), "w").write(s.replace(k + " = TRUE", k + " = FALSE").replace("CONSTRAINT Gen", "").replace("Gen", ""))
    tlc((mod or cfg) + ".tla", k)
for t in T:
    mkcfg.cfg("_mut", t[1], t[2], t[3], t[4], t[5], 2, t[6], t[7], t[8], off=(t[0],))
    tlc("MCBnB.tla", t[0])
for k in ("RevertRejected", "RevertEmpty", "RespectLimit", "AcceptBetter"):
    switch("Annealing", k)
for k in ("TakeCoeff", "UpdateBest"):
    switch("SaScore", k, "MCSaScore")
for m in ("memo", "scratch", "inplace"):
    s = open(os.path.join(mkcfg.D, "Calls.cfg")).read()
    assert '"pure"' in s
    open(os.path.join(mkcfg.D, "_mut.cfg"), "w").write(s.replace('"pure"', '"%s"' % m).replace("CONSTRAINT Gen", "").replace("Gen", ""))
    tlc("Calls.tla", m)
os.remove(os.path.join(mkcfg.D, "_mut.cfg"))
