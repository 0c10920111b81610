------------------------------- MODULE TraceC10 -------------------------------
(* Simulated annealing as seen by its cost function (see SaChain). *)
EXTENDS TraceBase, SaChain
VARIABLES poss, sure, maybe
vars10 == <<c, l, bad, poss, sure, maybe>>
F == Cases[c]

ObsClauses(f, o) ==
    Clause(o[1] >= 1 /\ 2 * o[1] < f.n, "illegal-size")
    \cup Clause(o[2] # 0, "not-the-residuals-of-a-model")
    \cup Clause(o[2] = 0 \/ Proposed(f, o, poss) # {}, "not-one-move-from-the-current-model")

ItemClauses(it) ==
    IF ~it.ok THEN {"not-a-model"}
    ELSE Clause(CloseSeq(it.co, it.truth, 1000, 100000), "coefficients-not-least-squares")
Ranks(f) == {f.obs[i][3] : i \in 1..Len(f.obs)}
(* the ranks a model was evaluated with *)
RankOf(f, m) == {f.obs[i][3] : i \in {k \in 1..Len(f.obs) : f.obs[k][2] # 0 /\ m \in SeqRange(f.classes[f.obs[k][2]])}}
EndClauses(f) ==
    LET n == Len(f.items)
        K == {f.items[i].m : i \in 1..n} IN
    UNION {ItemClauses(f.items[i]) : i \in 1..n} \cup ItemClauses(f.best) \cup ItemClauses(f.final)
    \cup Clause(Cardinality(K) = n, "model-listed-twice")
    \cup Clause(\A i \in 1..n : f.items[i].own, "score-not-minus-cost")
    \cup Clause(n <= f.cap /\ n >= 1, "wrong-length")
    \cup Clause(f.nok, "wrong-row-count")
    \cup Clause(f.kept, "arguments-changed")
    \cup (IF f.truncated THEN {}
          ELSE Clause(K \subseteq maybe, "never-accepted")
               \cup Clause(n >= Min2(f.cap, Cardinality(sure)), "accepted-model-missing")
               \cup Clause(\A i \in 1..n : ~f.items[i].ok \/ f.items[i].r \in RankOf(f, f.items[i].m), "score-not-minus-cost")
               \cup Clause(\A x \in sure \ K : n = f.cap /\ \A i \in 1..n : f.items[i].r <= Min(RankOf(f, x)), "better-candidate-lost")
               \cup Clause(f.best.m \in maybe /\ f.best.r = Min(Ranks(f)), "wrong-best")
               \cup Clause(f.worst = Max({f.items[i].r : i \in 1..n}), "wrong-worst")
               \cup Clause(f.final.m \in {s[1] : s \in poss}, "not-the-current-model"))

(* the model the chain starts with is not evaluated; any start is fine *)
Init == TInit /\ poss = (IF Crashed(c) THEN {} ELSE StartPoss(F)) /\ sure = {} /\ maybe = {}
Dead == bad = {} /\ l = 0 /\ (Crashed(c) \/ F.outcome # "ok")
        /\ bad' = {IF Crashed(c) THEN "crash" ELSE F.outcome} /\ l' = 1 /\ UNCHANGED <<c, poss, sure, maybe>>
Observe == /\ bad = {} /\ ~Crashed(c) /\ F.outcome = "ok" /\ ~F.truncated /\ l < Len(F.obs)
           /\ LET o == F.obs[l + 1] IN
              /\ bad' = ObsClauses(F, o)
              /\ poss' = NextPoss(F, o, poss)
              /\ maybe' = NextMaybe(F, o, poss, maybe)
              /\ sure' = NextSure(F, o, poss, sure)
           /\ l' = l + 1 /\ UNCHANGED c
End == /\ bad = {} /\ ~Crashed(c) /\ F.outcome = "ok" /\ l = (IF F.truncated THEN 0 ELSE Len(F.obs))
       /\ bad' = EndClauses(F) /\ l' = Len(F.obs) + 1 /\ UNCHANGED <<c, poss, sure, maybe>>
Spec == Init /\ [][Dead \/ Observe \/ End]_vars10
===============================================================================
