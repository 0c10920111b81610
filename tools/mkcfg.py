#!/usr/bin/env python3
"""writes the TLC configurations of the BnB design model"""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
SW = ["ScoreRoot", "LenFirst", "ListGuard", "LcsRowRule", "SignedCutoff", "BufferedReady", "CurrentBest", "PruneOnce"]
def cfg(name, rows, fit, roots, cut, ql, w, inv=(), props=(), spec="Spec", off=()):
    s = "SPECIFICATION %s\nCONSTANTS\n P = 3\n Rows = %s\n FitValues = %s\n Roots = %s\n Cutoffs <- %s\n QueueLimits = %s\n W = %d\n" % (
        spec, rows, fit, roots, cut, ql, w)
    for x in SW:
        s += " %s = %s\n" % (x, "FALSE" if x in off else "TRUE")
    if inv: s += "INVARIANTS " + " ".join(inv) + "\n"
    if props: s += "PROPERTIES " + " ".join(props) + "\n"
    open(os.path.join(D, name + ".cfg"), "w").write(s)
S = ["TypeOK", "OnlyModels", "ExactlyOnce", "CountsRight", "NoOrphan"]
def main():
    # quick
    cfg("BnB_C01", "{3}", "{0, 4}", "{0, 3}", "CutZero", "{100}", 2, S + ["Optimal"], ["BestMonotone"])
    cfg("BnB_C02", "{2, 6}", "{0, 4}", "{5}", "CutZero", "{100}", 2, S)
    cfg("BnB_C03", "{3}", "{0, 4}", "{6}", "CutZero", "{0, 100}", 2, S)
    cfg("BnB_C03_live", "{3}", "{0, 4}", "{1}", "CutZero", "{100}", 2, [], ["Terminates", "WorkersEnd"], "FairSpec")
    cfg("BnB_C04", "{6}", "{0, 4}", "{2}", "CutBoth", "{100}", 2, ["CutoffHonoured", "CutoffUpper", "Optimal"])
    cfg("BnB_C07", "{6}", "{0, 4}", "{0, 1}", "CutZero", "{100}", 2, ["Progress", "FinalProgress"], ["ProgressMonotone", "BestMonotone"])
    # thorough
    A = S + ["Optimal", "CutoffHonoured", "CutoffUpper", "Progress", "FinalProgress"]
    cfg("BnB_C01_thorough", "{2, 3, 6}", "{0, 3, 5}", "{0, 1, 6, 7}", "CutNeg", "{100}", 2, A, ["BestMonotone"])
    cfg("BnB_C02_thorough", "{2, 3, 6}", "{0, 4}", "{0, 1, 2, 3, 4, 5, 6, 7}", "CutBoth", "{0, 2, 100}", 2, A)
    cfg("BnB_C03_thorough", "{3, 6}", "{0, 4}", "{0, 5, 7}", "CutBoth", "{0, 1, 2, 100}", 3, A)
    cfg("BnB_C03_live_thorough", "{3, 6}", "{0, 4}", "{0, 5}", "CutZero", "{1, 100}", 2, [], ["Terminates", "WorkersEnd"], "FairSpec")
    cfg("BnB_C04_thorough", "{3, 6}", "{0, 3, 5}", "{0, 5}", "CutAll", "{100}", 2, A)
    cfg("BnB_C07_thorough", "{3, 6}", "{0, 3, 5}", "{0, 2, 7}", "CutBoth", "{100}", 2, A, ["ProgressMonotone", "BestMonotone"])
    return A
if __name__ == "__main__":
    main()
