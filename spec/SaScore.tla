------------------------------- MODULE SaScore -------------------------------
(***************************************************************************)
(* Design model of featselect.SAScore: insertion of candidates, each       *)
(* identified by its selection (key), whose score is a function of the key.*)
(***************************************************************************)
EXTENDS SaContract, TLC, Json
CONSTANTS Caps, Keys, ScoreMaps, MaxOps, TakeCoeff, UpdateBest
VARIABLES cap, score, ops, items, best, worst
vars == <<cap, score, ops, items, best, worst>>

(* items is a sequence of [k, ck]: key of the selection, key of the coefficients; best is a key, worst a position *)
Init == cap \in Caps /\ score \in ScoreMaps /\ ops = <<>> /\ items = <<>> /\ best = 0 /\ worst = 0
Sc(it) == score[it.k]
Exists(k) == \E i \in 1..Len(items) : items[i].k = k
Insert(k) ==
    /\ Len(ops) < MaxOps
    /\ ops' = Append(ops, k)
    /\ UNCHANGED <<cap, score>>
    /\ IF Exists(k) THEN UNCHANGED <<items, best, worst>>
       ELSE IF items = <<>> THEN items' = <<[k |-> k, ck |-> k]>> /\ best' = k /\ worst' = 1
       ELSE IF Len(items) < cap
       THEN /\ items' = Append(items, [k |-> k, ck |-> k])
            /\ best' = IF score[k] > score[best] THEN k ELSE best
            /\ worst' = IF score[k] < Sc(items[worst]) THEN Len(items) + 1 ELSE worst
       ELSE IF score[k] > Sc(items[worst])
       THEN LET it2 == [items EXCEPT ![worst] = [k |-> k, ck |-> IF TakeCoeff THEN k ELSE items[worst].ck]]
                S == {i \in 1..Len(it2) : \A j \in 1..Len(it2) : score[it2[i].k] <= score[it2[j].k]}
            IN /\ items' = it2
               /\ best' = IF score[k] > score[best] /\ UpdateBest THEN k ELSE best
               /\ worst' = IF worst \in S THEN worst ELSE CHOOSE i \in S : \A j \in S : i <= j
       ELSE UNCHANGED <<items, best, worst>>
Next == \E k \in Keys : Insert(k)
Spec == Init /\ [][Next]_vars
Contract == ops # <<>> => SaClauses(cap, score, SeqRange(ops), items, best, score[best], score[items[worst].k]) = {}
Gen == Len(ops) = MaxOps => PrintT("GEN " \o ToJson([cap |-> cap, score |-> score, ops |-> ops]))
===============================================================================
