------------------------------- MODULE TraceC03 -------------------------------
(* Every search ends normally (design: Terminates) and all its goroutines end (design: WorkersEnd). *)
EXTENDS TraceBase

Clauses(r) == IF r.outcome # "ok" THEN {r.outcome} ELSE Clause(r.excess = 0, "goroutines-left")

Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
