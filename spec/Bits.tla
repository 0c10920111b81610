-------------------------------- MODULE Bits --------------------------------
(* Feature sets as natural numbers: bit j (j = 0, 1, ...) is set iff feature j is selected. *)
EXTENDS Integers, Sequences, FiniteSets

Pow2(k) == 2^k
Bit(m, j) == (m \div Pow2(j)) % 2
HasBit(m, j) == Bit(m, j) = 1
SetOf(m, p) == {j \in 0..(p - 1) : HasBit(m, j)}
RECURSIVE PopCount(_)
PopCount(m) == IF m = 0 THEN 0 ELSE (m % 2) + PopCount(m \div 2)
FlipBit(m, j) == IF HasBit(m, j) THEN m - Pow2(j) ELSE m + Pow2(j)

(* features 0..k-1 are decided by m; the others are all out (Lcs) or all in (Gcs) *)
Low(m, k) == m % Pow2(k)
Lcs(m, k) == Low(m, k)
Gcs(m, k, p) == Low(m, k) + (Pow2(p) - Pow2(k))

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SeqRange(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(SeqRange(s)) = Len(s)
SortedDesc(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
SortedAsc(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
StrictAsc(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
(* failing clauses: Clause(ok, name) is {} or {name} *)
Clause(ok, name) == IF ok THEN {} ELSE {name}
=============================================================================
