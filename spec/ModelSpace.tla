------------------------------ MODULE ModelSpace ------------------------------
(***************************************************************************)
(* The search tree of branch and bound over real (small, integer) designs: *)
(* all designs of NumFeat columns over Entries (up to their order; with    *)
(* Mod > 1 a part of them).  A behaviour goes down from the root to one    *)
(* completely decided model.  BnB.tla assumes that the fit terms are       *)
(* antitone and prunes with the bounds; here both are derived from data.   *)
(* The designs and their tables of AICc are printed for the real code.     *)
(***************************************************************************)
EXTENDS AiccTable, BnBContract, Json, SequencesExt
CONSTANTS Entries, Target, NumFeat, Mod, Rem
VARIABLES cols, f, k, m
vars == <<cols, f, k, m>>
P == 1..NumFeat
ColSeq == TLCEval(SetToSeq([1..Len(Target) -> Entries]))
RECURSIVE Mix(_, _)
Mix(q, i) == IF i = 0 THEN 0 ELSE q[i] * (2 * i + 1) + 3 * Mix(q, i - 1)
RECURSIVE Ascending(_, _)
Ascending(i, lo) == IF i = 0 THEN {<<>>} ELSE UNION {{<<a>> \o t : t \in Ascending(i - 1, a)} : a \in lo..Len(ColSeq)}
Init == /\ \E q \in {x \in Ascending(NumFeat, 1) : Mix(x, NumFeat) % Mod = Rem} : cols = TLCEval([i \in P |-> ColSeq[q[i]]])
        /\ f = <<>> /\ k = -1 /\ m = 0
Table == k = -1 /\ k' = 0 /\ f' = FactsOf(cols, Target) /\ UNCHANGED <<cols, m>>
Decide ==
        /\ k >= 0 /\ k < NumFeat
        /\ \E d \in {0, 1} : m' = m + d * Pow2(k)
        /\ k' = k + 1
        /\ UNCHANGED <<cols, f>>
Next == Table \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Tol == 4
Upper(mm, kk) == IF Lcs(mm, kk) = 0 THEN 1000000000 ELSE f.pen[PopCount(Gcs(mm, kk, NumFeat)) + 1] + f.logr[Lcs(mm, kk) + 1]
Covered == {x \in Models(f) : Low(x, k) = m}
Antitone == k = 0 => \A x \in 0..(Pow2(NumFeat) - 1), j \in 0..(NumFeat - 1) : HasBit(x, j) => f.logr[x + 1] <= f.logr[x - Pow2(j) + 1] + Tol
PenaltiesAscend == k = 0 => \A i \in 1..Len(f.pen) - 1 : f.pen[i] < f.pen[i + 1]
(* the bounds hold for every model in the subtree ... *)
BoundsHold == k >= 0 => \A x \in Covered : Lower(f, m, k) <= Crit(f, x) + Tol /\ Upper(m, k) >= Crit(f, x) - Tol
(* ... are equal to the criterion at the end, and only become tighter on the way down *)
TightAtEnd == k = NumFeat /\ m \in Models(f) => Lower(f, m, k) = Crit(f, m) /\ Upper(m, k) = Crit(f, m)
Tightens == [][k >= 0 => /\ Lower(f, m', k') >= Lower(f, m, k) - Tol
                           /\ Upper(m', k') <= Upper(m, k) + Tol]_vars
Decided == <>(k = NumFeat)
Gen == k = 0 => PrintT("GEN " \o ToJson([x |-> cols, y |-> Target, pen |-> f.pen, logr |-> f.logr]))
===============================================================================
