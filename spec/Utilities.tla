------------------------------ MODULE Utilities ------------------------------
(***************************************************************************)
(* Design model of the selection utilities as one-pass scans: extremes     *)
(* (the first of the largest and smallest values wins), the union of two   *)
(* sequences, the rearrangement of columns (requested ones first, then the *)
(* others in their order).  After every prefix the running result is what  *)
(* the definition says of the prefix.  All inputs are printed and passed   *)
(* to the real utilities.                                                  *)
(***************************************************************************)
EXTENDS Bits, TLC, Json
CONSTANTS Vals, MaxLen, Elems, MaxUnion, MaxCols
VARIABLES kind, a, b, i, best, least, out
vars == <<kind, a, b, i, best, least, out>>
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Partial(n) == {q \in SeqsUpTo(0..(n - 1), n) : Distinct(q)}
Init == /\ i = 0 /\ best = 0 /\ least = 0 /\ out = <<>>
        /\ \/ kind = "order" /\ a \in SeqsUpTo(Vals, MaxLen) \ {<<>>} /\ b = <<>>
           \/ kind = "union" /\ a \in SeqsUpTo(Elems, MaxUnion) /\ b \in SeqsUpTo(Elems, MaxUnion)
           \/ kind = "cols" /\ \E n \in 1..MaxCols : a \in Partial(n) /\ b = [k \in 1..n |-> k - 1]
Scan == /\ kind = "order" /\ i < Len(a) /\ i' = i + 1
        /\ best' = IF best = 0 \/ a[i + 1] > a[best] THEN i + 1 ELSE best
        /\ least' = IF least = 0 \/ a[i + 1] < a[least] THEN i + 1 ELSE least
        /\ UNCHANGED out
(* one more element of b; what is there already is left out *)
Add == /\ kind \in {"union", "cols"} /\ i < Len(b) /\ i' = i + 1
       /\ LET o == IF i = 0 THEN a ELSE out IN
          out' = IF b[i + 1] \in SeqRange(o) THEN o ELSE Append(o, b[i + 1])
       /\ UNCHANGED <<best, least>>
Next == (Scan \/ Add) /\ UNCHANGED <<kind, a, b>>
Spec == Init /\ [][Next]_vars

Pre(s) == SubSeq(s, 1, i)
Extremes == (kind = "order" /\ i > 0) =>
    /\ \A k \in 1..i : a[k] <= a[best] /\ a[k] >= a[least]
    /\ \A k \in 1..(best - 1) : a[k] # a[best]
    /\ \A k \in 1..(least - 1) : a[k] # a[least]
UnionRight == (kind # "order" /\ i > 0) =>
    /\ SubSeq(out, 1, Len(a)) = a
    /\ SeqRange(out) = SeqRange(a) \cup SeqRange(Pre(b))
    /\ Distinct(SubSeq(out, Len(a) + 1, Len(out)))
    /\ \A j, k \in (Len(a) + 1)..Len(out) : j < k => \E x, y \in 1..i : x < y /\ b[x] = out[j] /\ b[y] = out[k]
IsRearrangement == (kind = "cols" /\ i = Len(b)) => Distinct(out) /\ Len(out) = Len(b)
Ready == IF kind = "order" THEN i = Len(a) ELSE i = Len(b)
Gen == Ready => PrintT("GEN " \o ToJson([kind |-> kind, a |-> a, b |-> b]))
===============================================================================
