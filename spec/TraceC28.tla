------------------------------- MODULE TraceC28 -------------------------------
(* Contracts of the selection utilities. *)
EXTENDS TraceBase

IsPerm(s, n) == Len(s) = n /\ SeqRange(s) = 0..(n - 1)
(* s2 without what is already there, in order of first appearance *)
RECURSIVE NewOnes(_, _)
NewOnes(seen, s) == IF s = <<>> THEN <<>>
                    ELSE IF Head(s) \in seen THEN NewOnes(seen, Tail(s))
                    ELSE <<Head(s)>> \o NewOnes(seen \cup {Head(s)}, Tail(s))
Order(r) ==
    LET a == r.a
        n == Len(a)
        first(P(_)) == CHOOSE i \in 1..n : P(i) /\ \A j \in 1..(i - 1) : ~P(j)
        mx == CHOOSE v \in SeqRange(a) : \A w \in SeqRange(a) : w <= v
        mn == CHOOSE v \in SeqRange(a) : \A w \in SeqRange(a) : w >= v
    IN  (IF IsPerm(r.perm, n) THEN Clause(\A i \in 1..(n - 1) : a[r.perm[i] + 1] <= a[r.perm[i + 1] + 1], "not-sorted") ELSE {"not-a-permutation"})
        \cup Clause(r.max = mx, "max") \cup Clause(r.min = mn, "min") \cup Clause(r.minf = mn, "minfloat")
        \cup Clause(r.amin + 1 \in 1..n /\ a[r.amin + 1] = mn /\ \A j \in 1..r.amin : a[j] # mn, "argmin")
        \cup Clause(r.amax + 1 \in 1..n /\ a[r.amax + 1] = mx /\ \A j \in 1..r.amax : a[j] # mx, "argmax")
        \cup Clause(r.sum = SumSeq(a), "sum") \cup Clause(r.abs = [i \in 1..n |-> Abs(a[i])], "abs")
        \cup Clause(r.kept, "argument-changed")
Union(r) ==
    Clause(r.u = r.s1 \o NewOnes(SeqRange(r.s1), r.s2), "union")
    \cup Clause(r.ex = [i \in 1..17 |-> (i - 2) \in SeqRange(r.s2)], "exists")
    \cup Clause(r.all = [i \in 1..3 |-> SeqRange(r.s2) \subseteq {i - 1}], "all")
    \cup Clause(\A i \in 1..Len(r.eq) : r.eq[i], "equal") \cup Clause(r.kept, "argument-changed")
Rearrange(r) ==
    LET col(j) == [i \in 1..r.nr |-> 100 * (i - 1) + j]
        k == Len(r.ord) IN
    Clause(Len(r.cols) = r.nc /\ SeqRange(r.cols) = {col(j) : j \in 0..(r.nc - 1)}, "not-a-permutation-of-the-columns")
    \cup Clause(Len(r.cols) >= k /\ \A j \in 1..k : r.cols[j] = col(r.ord[j]), "requested-columns-not-first")
    \cup Clause(r.kept, "argument-changed")
Weights(r) ==
    LET n == Len(r.a) IN
    IF Len(r.lw) # n THEN {"wrong-length"}
    ELSE Clause(\A i, j \in 1..n : r.lw[i] # NaN /\ Abs((r.lw[i] - r.lw[j]) + (r.a[i] - r.a[j])) <= 4, "wrong-ratio")
         \cup Clause(Abs(r.sum - 100000000) <= 1, "sum-is-not-one")
RECURSIVE Acc(_, _, _)
Acc(r, f, m) == IF m = 0 THEN 0
                ELSE Acc(r, f, m - 1) + LET S == {j \in 1..Len(r.ss[m]) : r.ss[m][j] = f} IN
                     IF S = {} THEN 0 ELSE r.w[m] * r.cs[m][CHOOSE j \in S : TRUE]
Average(r) == Clause(r.avg = [f \in 1..r.nf |-> Acc(r, f - 1, Len(r.w))], "weighted-average")
Full(r) == Clause(r.v = [f \in 1..r.nf |-> LET S == {j \in 1..Len(r.s) : r.s[j] = f - 1} IN
                                           IF S = {} THEN 0 ELSE r.co[CHOOSE j \in S : TRUE]], "coefficients-of-all-features")
Logs(r) ==
    IF Len(r.logs) # r.n THEN {"wrong-length"}
    ELSE IF r.n = 0 THEN {}
    ELSE Clause(r.ends, "end-points") \cup
         IF r.n = 1 THEN Clause(Close(r.logs[1], r.lo, 2), "first-value")
         ELSE Clause(\A i \in 1..r.n : r.logs[i] # NaN /\ Abs((r.logs[i] - r.lo) * (r.n - 1) - (r.hi - r.lo) * (i - 1)) <= 4 * r.n, "ratio-not-constant")
RECURSIVE Total(_, _)
Total(r, i) == IF i = 0 THEN Pow2(r.k0) ELSE Total(r, i - 1) + Pow2(r.ks[i])
Clauses(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE CASE r.k = "order" -> Order(r) [] r.k = "union" -> Union(r) [] r.k = "rearrange" -> Rearrange(r)
           [] r.k = "weights" -> Weights(r) [] r.k = "average" -> Average(r) [] r.k = "full" -> Full(r) [] r.k = "logspace" -> Logs(r)
           [] r.k = "log2" -> Clause(\A i \in 1..Len(r.vals) : r.vals[i] = Total(r, i), "log-of-sum")
           [] r.k = "log2far" -> Clause(IF r.d = 0 THEN r.above = 1000000 ELSE IF r.d >= 20 THEN r.above \in {0, 1} ELSE r.above \in 0..584963, "log-of-sum")
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
