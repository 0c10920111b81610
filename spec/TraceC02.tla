------------------------------- MODULE TraceC02 -------------------------------
(* Traces of the branch-and-bound search: every entry of every result list is checked. *)
EXTENDS BnBContract, OrthoContract

Tol == 4
(* truth about the coefficients of model m: exact least-squares solution, smallest norm *)
TruthOf(f, m) == LET i == CHOOSE i \in 1..Len(f.truth) : f.truth[i].m = m IN f.truth[i].c
HasTruth(f, m) == \E i \in 1..Len(f.truth) : f.truth[i].m = m

EntryClauses(f, e) ==
    IF e.len # f.p \/ e.m \notin Models(f) THEN {"not-a-model"}
    ELSE Clause(Close(-e.s, Crit(f, e.m), Tol), "score-not-minus-aicc")
         \cup Clause(e.lo # NaN /\ e.lo <= Crit(f, e.m) + Tol, "lower-bound-above")
         \cup Clause(e.up # NaN /\ e.up >= Crit(f, e.m) - Tol, "upper-bound-below")
         \cup Clause(CloseSeq(e.c, TruthOf(f, e.m), 5, 10000), "coefficients-not-least-squares")

Clauses(f, r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE IF f.kind = "hadamard" THEN OListClauses(f, r)
    ELSE LET E == r.entries IN
         UNION {EntryClauses(f, E[i]) : i \in 1..Len(E)}
         \cup Clause(\A i \in 1..Len(E) : Cardinality({k \in 1..Len(E) : E[k].m = E[i].m}) <= r.times, "duplicate-model")
         \cup Clause(SortedDesc([i \in 1..Len(E) |-> E[i].s]), "not-sorted")
         \cup Clause(Len(E) <= r.cap, "over-capacity")

Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c], Cases[c].runs[l + 1]))]_tvars
===============================================================================
