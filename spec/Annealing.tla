------------------------------ MODULE Annealing ------------------------------
(***************************************************************************)
(* Design model of featselect.SelectModelSA: a chain of single flips with  *)
(* revert, a candidate list of distinct accepted models, and the observer  *)
(* of the cost function (SaChain) that TraceC10 uses.  Acceptance of worse *)
(* models is nondeterministic (temperature).  Invariants: the chain does   *)
(* what C10 promises, and the observer is sound: the true state is always  *)
(* among the states it considers possible.                                 *)
(***************************************************************************)
EXTENDS SaChain, TLC
CONSTANTS P, Limit, NCost, Caps, MaxSteps,
          RevertRejected,   \* a rejected flip is undone
          RevertEmpty,      \* a flip to the empty model is undone (and the model evaluated again)
          RespectLimit,     \* models of Limit or more features are not evaluated
          AcceptBetter      \* lower cost is always accepted
VARIABLES cost, amb, cap, cur, curCost, items, accepted, steps, lastobs, poss, sure, maybe, okObs
vars == <<cost, amb, cap, cur, curCost, items, accepted, steps, lastobs, poss, sure, maybe, okObs>>
Models == 1..(Pow2(P) - 1)
(* classes: with amb, models of the same size and cost look the same to the cost function *)
ClassOf(m) == IF amb THEN {x \in Models : PopCount(x) = PopCount(m) /\ cost[x] = cost[m]} ELSE {m}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Facts == [p |-> P, nb |-> <<>>, classes |-> [m \in 1..Pow2(P) |-> IF m < Pow2(P) THEN SetSeq(ClassOf(m)) ELSE <<>>]]
ObsOf(m) == IF m = 0 THEN <<0, 0, NCost + 1>> ELSE <<PopCount(m), m, cost[m]>>
Init == /\ cost \in [Models -> 1..NCost] /\ amb \in BOOLEAN /\ cap \in Caps
        /\ cur = 1 /\ curCost = Unset /\ items = {} /\ accepted = {} /\ steps = 0 /\ lastobs = <<>>
        /\ poss = {<<m, Unset>> : m \in Models} /\ sure = {} /\ maybe = {} /\ okObs = TRUE
(* the candidate list: best cap distinct accepted models; ties either way *)
Insert(S, m) == IF m \in S THEN {S}
                ELSE IF Cardinality(S) < cap THEN {S \cup {m}}
                ELSE LET W == {x \in S : \A y \in S : cost[y] <= cost[x]}
                         w == CHOOSE x \in W : TRUE IN
                     IF cost[m] < cost[w] THEN {(S \ {x}) \cup {m} : x \in W} ELSE {S}
Step(j) ==
    LET flipped == FlipBit(cur, j)
        m == IF flipped = 0 /\ RevertEmpty THEN cur ELSE flipped IN
    /\ steps < MaxSteps
    /\ RespectLimit => PopCount(m) < Limit
    /\ LET o == ObsOf(m)
           f == Facts IN
       /\ lastobs' = o
       /\ okObs' = (o[1] >= 1 /\ o[1] < Limit /\ Proposed(f, o, poss) # {})
       /\ poss' = NextPoss(f, o, poss) /\ maybe' = NextMaybe(f, o, poss, maybe) /\ sure' = NextSure(f, o, poss, sure)
       /\ \/ /\ cur' = m /\ curCost' = o[3] /\ accepted' = accepted \cup {m}
             /\ items' \in (IF m = 0 THEN {items} ELSE Insert(items, m))
          \/ /\ o[3] > curCost \/ (~AcceptBetter /\ o[3] < curCost)
             /\ cur' = IF RevertRejected THEN cur ELSE m
             /\ UNCHANGED <<curCost, accepted, items>>
    /\ steps' = steps + 1 /\ UNCHANGED <<cost, amb, cap>>
(* once the observer has found an error there is no more to see *)
Next == okObs /\ \E j \in 0..(P - 1) : Step(j)
Spec == Init /\ [][Next]_vars
Legal == okObs
Sound == okObs => (/\ steps = 0 \/ <<cur, curCost>> \in poss
                   /\ sure \subseteq accepted /\ accepted \subseteq maybe)
ListBest == okObs => (/\ items \subseteq accepted
                      /\ Cardinality(items) = Min2(cap, Cardinality(accepted))
                      /\ \A x \in accepted \ items : \A y \in items : cost[y] <= cost[x])
(* the observer knows the chain exactly when nothing is ambiguous and every cost is different *)
==============================================================================
