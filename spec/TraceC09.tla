------------------------------- MODULE TraceC09 -------------------------------
(* Each step checks the candidate list after every insertion of one sequence. *)
EXTENDS SaContract, TraceBase

(* observation q shows the list after o.n insertions *)
ObsClauses(r, q) ==
    LET o == r.obs[q]
        k == o.n
        ins == {r.ops[i] : i \in 1..k} IN
    SaClauses(r.cap, r.score, ins, o.items, o.bk, o.bs, o.ws)
    \cup Clause(\A i \in 1..Len(o.items) : o.items[i].k \notin ins \/ o.items[i].s = r.score[o.items[i].k], "score-of-another-candidate")
    \cup Clause(o.bck = o.bk, "best-with-other-coefficients")
    \cup Clause(\E i \in 1..Len(o.items) : o.items[i].k = o.wk /\ o.items[i].s = o.ws, "worst-not-in-list")
    \cup Clause(o.wck = o.wk, "worst-with-other-coefficients")
    \cup Clause(o.exists = [x \in 1..Len(r.score) |-> \E i \in 1..Len(o.items) : o.items[i].k = x], "wrong-membership")

Clauses(r) == IF r.outcome # "ok" THEN {r.outcome} ELSE UNION {ObsClauses(r, k) : k \in 1..Len(r.obs)}
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
