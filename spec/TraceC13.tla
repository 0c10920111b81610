------------------------------- MODULE TraceC13 -------------------------------
(* Paths of coordinate descent: one node for each regularisation, in the right place, with the right solution. *)
EXTENDS Lasso, LassoTraces, TraceBase

Step(f, i) ==
    IF "type" \in DOMAIN f THEN ExactCdPath(f.runs[i])
    ELSE IF f.outcome # "ok" THEN {f.outcome}
    ELSE IF i = 1
    THEN Clause([k \in 1..Len(f.obs) |-> f.obs[k].i] = CdExpected(f), "wrong-regularisations")
         \cup Clause(f.leak = 0, "workers-still-running") \cup Clause(f.kept, "list-of-the-caller-changed")
    ELSE CdNodeClauses(f, f.obs[i - 1])
Spec == TInit /\ [][TStep(IF "type" \in DOMAIN Cases[c] THEN Len(Cases[c].runs) ELSE IF Cases[c].outcome = "ok" THEN Len(Cases[c].obs) + 1 ELSE 1, Step(Cases[c], l + 1))]_tvars
===============================================================================
