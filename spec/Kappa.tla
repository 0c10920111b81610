-------------------------------- MODULE Kappa --------------------------------
(***************************************************************************)
(* Cohen's kappa of two sets of features, as an exact fraction, and its    *)
(* algebra for all pairs of sets over few features.                        *)
(***************************************************************************)
EXTENDS Bits, TLC, Json, SequencesExt
CONSTANT Sizes

(* kappa = Num / Den, both scaled by n^2 *)
Agree(n, A, B) == Cardinality(A \cap B) + n - Cardinality(A \cup B)
Chance(n, A, B) == Cardinality(A) * Cardinality(B) + (n - Cardinality(A)) * (n - Cardinality(B))
Num(n, A, B) == n * Agree(n, A, B) - Chance(n, A, B)
Den(n, A, B) == n * n - Chance(n, A, B)
(* both empty or both full: the denominator is zero and kappa is one *)
Defined(n, A, B) == Den(n, A, B) # 0

VARIABLES n, A, B
Init == n \in Sizes /\ A \in SUBSET (0..(n - 1)) /\ B \in SUBSET (0..(n - 1))
Spec == Init /\ [][FALSE]_<<n, A, B>>
Algebra ==
    /\ Num(n, A, B) = Num(n, B, A) /\ Den(n, A, B) = Den(n, B, A)
    /\ Den(n, A, B) >= 0
    /\ ~Defined(n, A, B) => (A = B /\ (A = {} \/ A = 0..(n - 1)))
    /\ Defined(n, A, B) => /\ Num(n, A, B) <= Den(n, A, B) /\ Num(n, A, B) >= -Den(n, A, B)
                           /\ (Num(n, A, B) = Den(n, A, B)) = (A = B)
    (* relabelling the features (reflection, exchange of neighbours) *)
    /\ LET rev(S) == {n - 1 - x : x \in S}
           swp(S) == {IF x = 0 /\ n > 1 THEN 1 ELSE IF x = 1 THEN 0 ELSE x : x \in S} IN
       /\ Num(n, rev(A), rev(B)) = Num(n, A, B) /\ Den(n, rev(A), rev(B)) = Den(n, A, B)
       /\ Num(n, swp(A), swp(B)) = Num(n, A, B)
Seq1(S) == SetToSortSeq(S, <)
Gen == PrintT("GEN " \o ToJson([n |-> n, a |-> Seq1(A), b |-> Seq1(B)]))
==============================================================================
