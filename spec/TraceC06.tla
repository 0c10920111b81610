------------------------------- MODULE TraceC06 -------------------------------
(* Each step checks the list after every insertion of one sequence. *)
EXTENDS HighscoreContract, TraceBase

(* observation q shows the list after o.k insertions *)
ObsClauses(r, q) ==
    LET o == r.obs[q] k == o.k L == o.ids
        before == IF q = 1 THEN 0 ELSE r.obs[q - 1].k IN
    ListClauses(r.cap, r.ss, k, L)
    \cup Clause(q = 1 \/ SeqRange(L) \subseteq SeqRange(r.obs[q - 1].ids) \cup ((before + 1)..k), "evicted-node-returned")
    \cup Clause(L # <<>>, "empty-after-insertion")
    \cup Clause(o.len = Len(L), "wrong-length")
    \cup Clause(o.sc = [i \in 1..Len(L) |-> r.ss[L[i]]], "scores-not-those-of-nodes")
    \cup Clause(L = <<>> \/ o.best = r.ss[L[1]], "wrong-best-score")

Clauses(r) == IF r.outcome # "ok" THEN {r.outcome} ELSE UNION {ObsClauses(r, k) : k \in 1..Len(r.obs)}
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
