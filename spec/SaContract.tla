------------------------------ MODULE SaContract ------------------------------
(* What the candidate list of simulated annealing promises. *)
EXTENDS Bits

(* ins: keys inserted so far; items: sequence of [k, ck]; score: score of every key *)
SaClauses(cap, score, ins, items, bestKey, bestScore, worstScore) ==
    LET K == {items[i].k : i \in 1..Len(items)} IN
    IF ~(K \subseteq ins) THEN {"not-inserted"}
    ELSE Clause(Cardinality(K) = Len(items), "duplicate-selection")
         \cup Clause(Len(items) = Min2(cap, Cardinality(ins)), "wrong-length")
         \cup Clause(\A i \in 1..Len(items) : items[i].ck = items[i].k, "coefficients-of-another-candidate")
         \cup Clause(\A x \in ins \ K : \A y \in K : score[x] <= score[y], "better-candidate-lost")
         \cup Clause(bestKey \in ins /\ bestScore = score[bestKey] /\ \A x \in ins : score[x] <= bestScore, "wrong-best")
         \cup Clause((\E y \in K : score[y] = worstScore) /\ \A y \in K : score[y] >= worstScore, "wrong-worst")
===============================================================================
