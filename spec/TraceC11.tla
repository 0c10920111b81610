------------------------------- MODULE TraceC11 -------------------------------
(* The exhaustive search: its list is the complete table of the model space. *)
EXTENDS BnBContract, TraceBase

Tol == 4
TruthOf(f, m) == LET i == CHOOSE i \in 1..Len(f.truth) : f.truth[i].m = m IN f.truth[i].c
AtClamp(f, m) == f.logr[m + 1] = f.clamp

EntryClauses(f, e) ==
    IF e.len # f.p \/ e.m \notin 1..(Pow2(f.p) - 1) THEN {"not-a-model"}
    ELSE Clause(IF AtClamp(f, e.m) THEN e.s # NaN /\ e.s >= -Crit(f, e.m) - Tol ELSE Close(-e.s, Crit(f, e.m), Tol), "score-not-minus-aicc")
         \cup Clause(CloseSeq(e.c, TruthOf(f, e.m), 5, 10000), "coefficients-not-least-squares")

Step(f, i) ==
    IF f.outcome # "ok" THEN {f.outcome}
    ELSE LET E == f.entries
             ms == [k \in 1..Len(E) |-> E[k].m] IN
         IF i <= Len(E) THEN EntryClauses(f, E[i])
         ELSE Clause(Distinct(ms), "duplicate-model")
              \cup Clause(SeqRange(ms) = 1..(Pow2(f.p) - 1), "not-all-models")
              \cup Clause(SortedDesc([k \in 1..Len(E) |-> E[k].s]), "not-sorted")
              \cup (IF Len(E) = 0 \/ E[1].m \notin Models(f) THEN {"no-best"}
                    ELSE IF AtClamp(f, E[1].m) THEN {} ELSE OptimalClauses(f, E[1].m, E[1].s, Tol))
              \cup Clause(f.bbdone => Abs(-f.bbscore - MinCrit(f)) <= Tol, "branch-and-bound-differs")

Spec == TInit /\ [][TStep(IF Cases[c].outcome = "ok" THEN Len(Cases[c].entries) + 1 ELSE 1, Step(Cases[c], l + 1))]_tvars
===============================================================================
