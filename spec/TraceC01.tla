------------------------------- MODULE TraceC01 -------------------------------
(* Traces of the branch-and-bound search with cutoff 0: one observation per finished search. *)
EXTENDS BnBContract, OrthoContract

Tol == 4    \* in 1e-4 of a unit of AICc

Clauses(f, r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE IF f.kind = "hadamard" THEN OOptimalClauses(f, r)
    ELSE IF Models(f) = {} THEN Clause(r.len = 0, "entry-without-model")
    ELSE IF r.len = 0 THEN {"empty-list"}
    ELSE OptimalClauses(f, r.best, r.score, Tol) \cup Clause(r.len <= r.cap, "over-capacity")

Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c], Cases[c].runs[l + 1]))]_tvars
===============================================================================
