------------------------------- MODULE TraceC21 -------------------------------
(* Values returned by the code (scaled by r.S) against the exact fraction of module Kappa.  The agreement is a matter
   of proportions: where every feature was replaced by r.times features, the same fraction has to come out. *)
EXTENDS TraceBase
K == INSTANCE Kappa WITH Sizes <- {}, n <- 0, A <- {}, B <- {}

Right(r, v, A, B) ==
    LET d == K!Den(r.n, A, B) IN
    IF d = 0 THEN v = r.S ELSE v # NaN /\ Abs(v) <= 2 * r.S /\ Abs(v * d - r.S * K!Num(r.n, A, B)) <= d
Clauses(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE LET A == SeqRange(r.a)
             B == SeqRange(r.b) IN
         Clause(Right(r, r.ab, A, B), "wrong-kappa")
         \cup Clause(Right(r, r.ba, A, B), "not-symmetric")
         \cup Clause(Right(r, r.ren, A, B), "depends-on-the-order-of-features")
         \cup Clause(r.aa = "1" /\ r.bb = "1", "identical-selections-not-one")
         \cup Clause(r.range, "out-of-range")
         \cup Clause(r.kept, "arguments-changed")
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
