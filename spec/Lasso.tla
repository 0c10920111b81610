-------------------------------- MODULE Lasso --------------------------------
(***************************************************************************)
(* Optimality of lasso solutions and the structure of lasso paths.         *)
(* g: correlation of every feature with the residual, s: sign of every     *)
(* coefficient (sequences indexed by feature + 1), A: features (from 0)    *)
(* that carry a coefficient, F: features taking part, all scaled alike.    *)
(***************************************************************************)
EXTENDS Bits

Big == 1100000000
KKT(g, s, A, F, lam, tol) ==
    \A j \in F :
       /\ Abs(g[j + 1]) <= Big
       /\ Abs(g[j + 1]) <= lam + tol
       /\ s[j + 1] # 0 => (j \in A /\ Abs(g[j + 1] - s[j + 1] * lam) <= tol)
       /\ j \in A => Abs(Abs(g[j + 1]) - lam) <= tol
SymDiff(S, T) == (S \ T) \cup (T \ S)
(* features in the order they enter, up to and including the first node that completes m of them *)
RECURSIVE Relevant(_, _, _, _)
AppendNew(out, sel) == out \o SelectSeq(sel, LAMBDA x : x \notin SeqRange(out))
Relevant(sels, m, k, out) ==
    IF k > Len(sels) THEN out
    ELSE LET o == AppendNew(out, sels[k]) IN IF Len(o) >= m THEN o ELSE Relevant(sels, m, k + 1, o)

(***************************************************************************)
(* A path of the least angle algorithm f.obs down to f.lmin.  Everything   *)
(* is scaled so that the largest correlation of a single feature is        *)
(* 1000000000.                                                             *)
(***************************************************************************)
LarsTol == 3000
LarsOne == 1000000000
LarsNodeClauses(f, i) ==
    LET o == f.obs[i]
        A == SeqRange(o.sel)
        F == 0..(f.p - 1) IN
    IF ~(A \subseteq F /\ o.nco = Len(o.sel)) THEN {"selection-inconsistent"} ELSE
    Clause(StrictAsc(o.sel), "selection-not-ascending")
    \cup Clause(o.lamb > f.lmin - 2, "below-the-minimum")
    \cup Clause(KKT(o.g, o.s, A, F, o.lamb, LarsTol), "not-optimal")
    \cup (IF i = 1 THEN Clause(Abs(o.lamb - LarsOne) <= LarsTol, "wrong-start") \cup Clause(Cardinality(A) = 1, "more-than-one-feature-at-the-start")
          ELSE LET q == f.obs[i - 1] IN
               Clause(o.rank < q.rank, "regularisation-not-decreasing")
               \cup Clause(Cardinality(SymDiff(A, SeqRange(q.sel))) = 1, "not-exactly-one-change")
               \cup Clause(KKT(q.mid, q.mids, SeqRange(q.sel), F, q.midl, LarsTol), "not-optimal-between-nodes"))
LarsEndClauses(f) ==
    IF f.obs = <<>> THEN Clause(f.lmin >= LarsOne, "no-path")
    ELSE Clause(f.lmin < LarsOne, "path-below-the-minimum")
         \cup Clause(f.end # <<>> /\ KKT(f.end, f.ends, SeqRange(f.obs[Len(f.obs)].sel), 0..(f.p - 1), f.lmin, LarsTol), "path-ends-early")

(* A path of coordinate descent: f.empty says which of the requested regularisations have an empty solution. *)
(* positions (in the ascending list) of the regularisations the path must hold *)
CdTop(f) == LET S == {i \in 1..Len(f.empty) : ~f.empty[i]} IN
          IF S = {} THEN Len(f.empty) ELSE CHOOSE i \in S : \A j \in S : j <= i
CdExpected(f) == [k \in 1..CdTop(f) |-> CdTop(f) - k + 1]
CdNodeClauses(f, o) ==
    IF o.i = 0 THEN {"regularisation-not-requested"}
    ELSE Clause(o.nco = Len(o.sel) /\ StrictAsc(o.sel), "selection-not-ascending")
         \cup Clause(f.slow \/ KKT(o.g, o.s, SeqRange(o.sel), 0..(f.p - 1), o.lamb, o.tol), "not-the-solution-of-its-regularisation")
==============================================================================
