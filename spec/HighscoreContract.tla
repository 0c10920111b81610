-------------------------- MODULE HighscoreContract --------------------------
(***************************************************************************)
(* What a bounded highscore list promises. ss[i] is the score (rank) of    *)
(* the i-th inserted node, L the list as a sequence of insertion numbers.  *)
(***************************************************************************)
EXTENDS Bits

Guaranteed(cap) == Max2(1, cap - 1)

ListClauses(cap, ss, k, L) ==
    IF ~(SeqRange(L) \subseteq 1..k) THEN {"not-inserted"}
    ELSE Clause(Distinct(L), "node-listed-twice")
         \cup Clause(SortedDesc([i \in 1..Len(L) |-> ss[L[i]]]), "not-sorted")
         \cup Clause(Len(L) <= cap, "over-capacity")
         \cup Clause(\A i \in (1..k) \ SeqRange(L) :
                         Cardinality({j \in SeqRange(L) : ss[j] >= ss[i]}) >= Guaranteed(cap), "top-entry-lost")
==============================================================================
