------------------------------- MODULE TraceC14 -------------------------------
(***************************************************************************)
(* LARS paths. Everything is scaled so that the largest correlation of a   *)
(* single feature is 1000000000.                                           *)
(***************************************************************************)
EXTENDS Lasso, LassoTraces, TraceBase

Step(f, i) == IF "type" \in DOMAIN f THEN ExactLars(f.runs[i]) ELSE IF f.outcome # "ok" THEN {f.outcome}
              ELSE IF i <= Len(f.obs) THEN LarsNodeClauses(f, i) ELSE LarsEndClauses(f)
Spec == TInit /\ [][TStep(IF "type" \in DOMAIN Cases[c] THEN Len(Cases[c].runs) ELSE Len(Cases[c].obs) + 1, Step(Cases[c], l + 1))]_tvars
===============================================================================
