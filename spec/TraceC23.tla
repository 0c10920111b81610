------------------------------- MODULE TraceC23 -------------------------------
(***************************************************************************)
(* Covariance thresholds. With few rows and one or two samples the         *)
(* specification knows the distances of every possible partition: there    *)
(* must be partitions for which the chosen grid point is optimal. With     *)
(* many samples the average is close to the one over all partitions.       *)
(***************************************************************************)
EXTENDS TraceBase

Few(f) ==
    IF ~f.exact \/ f.j \notin 0..(f.ng - 1) THEN {"not-a-grid-threshold"}
    ELSE LET V == f.vecs
             j == f.j + 1
             opt1(v) == \A k \in 1..f.ng : v[j] <= v[k] + 2
             opt2(v, w) == \A k \in 1..f.ng : v[j] + w[j] <= v[k] + w[k] + 4 IN
         Clause(IF f.ns = 1 THEN \E a \in 1..Len(V) : opt1(V[a])
                ELSE \E a, b \in 1..Len(V) : opt2(V[a], V[b]), "not-the-best-threshold")
Many(f) ==
    IF ~f.exact \/ f.j \notin 0..(f.ng - 1) THEN {"not-a-grid-threshold"}
    ELSE Clause(\A k \in 1..f.ng : f.mean[k] <= f.slack[k], "not-the-best-threshold")
Search(f) == (IF f.type = "few" THEN Few(f) ELSE Many(f))
             \cup Clause(f.leak = 0, "workers-still-running") \cup Clause(f.kept, "data-changed")

(* The sparse estimator: one near-optimal grid threshold explains which entries of the empirical covariance are zero. *)
Sparse(f) ==
    LET P == 1..f.p
        fits(j) == \A a, b \in P : f.zero[a][b] = (f.above[a][b] < j)
        best(j) == \A k \in 1..f.ng : f.mean[j][k] <= f.slack[j][k] IN
    Clause(\A a, b \in P : f.zero[a][b] \/ Close(f.got[a][b], f.emp[a][b], 3), "not-the-empirical-covariance")
    \cup Clause(\E j \in 1..f.ng : fits(j), "wrong-entries-removed")
    \cup Clause(~(\E j \in 1..f.ng : fits(j)) \/ \E j \in 1..f.ng : fits(j) /\ best(j), "not-the-best-threshold")
    \cup Clause(f.same, "not-reproducible") \cup Clause(f.other = "refused", "other-data-accepted")
    \cup Clause(f.leak = 0, "workers-still-running") \cup Clause(f.kept, "data-changed")
Row(f, i) == [j \in 1..f.p |-> i * 100 + j - 1]
RECURSIVE Prod(_, _, _, _)
Prod(X, a, b, k) == IF k = 0 THEN 0 ELSE X[k][a] * X[k][b] + Prod(X, a, b, k - 1)
RECURSIVE Tot(_, _, _)
Tot(X, a, k) == IF k = 0 THEN 0 ELSE X[k][a] + Tot(X, a, k - 1)
(* parts of similar size: that 40 splits leave a row where it is has a probability below 10^(-7) (many rows: 10^(-9)) *)
Balanced(f) == IF f.n <= 20 THEN f.num * 3 >= f.n /\ f.num * 3 <= 2 * f.n ELSE f.num * 5 >= 2 * f.n /\ f.num * 5 <= 3 * f.n
Ops(f) ==
    LET rows == f.a \o f.b
        n == Len(f.X)
        p == Len(f.X[1]) IN
    Clause(f.dims /\ Len(rows) = f.n /\ Distinct(rows) /\ SeqRange(rows) = {Row(f, i) : i \in 1..f.n}, "not-a-row-partition")
    \cup Clause(\A k \in 1..Len(f.firsts) : Distinct(f.firsts[k]) /\ SeqRange(f.firsts[k]) \subseteq 0..(f.n - 1), "not-a-row-partition")
    (* 40 splits: every row is in the first part of one of them, and out of another *)
    \cup Clause(f.num < 2 \/ ~Balanced(f) \/ \A x \in 0..(f.n - 1) :
                   LET k == Cardinality({i \in 1..40 : x \in SeqRange(f.firsts[i])}) IN k > 0 /\ k < 40, "splits-not-random")
    \cup Clause(\A a, b \in 1..p : Close(f.cov[a][b], 100 * (n * Prod(f.X, a, b, n) - Tot(f.X, a, n) * Tot(f.X, b, n)), 1), "not-the-covariance")
    \cup Clause(\A a, b \in 1..p : Close(f.emp[a][b], 100 * Prod(f.X, a, b, n), 1), "not-the-empirical-covariance")
    \cup Clause(\A a, b \in 1..p : f.ident[a][b] = IF a = b THEN 100 ELSE 0, "not-the-identity")
    \cup Clause(Len(f.before) = Len(f.after) /\ f.unchanged
                /\ \A i \in 1..Len(f.before) : f.after[i] = IF Abs(f.before[i]) < f.thr THEN 0 ELSE f.before[i], "wrong-entries-removed")
    \cup Clause(f.cnt \in {-1, Cardinality({i \in 1..Len(f.before) : Abs(f.before[i]) < f.thr})} /\ f.cnt2 = f.cnt, "removals-miscounted")
    \cup Clause(f.edge, "threshold-itself-removed-or-smaller-kept")
Clauses(f) == IF f.outcome # "ok" THEN {f.outcome} ELSE IF f.type = "ops" THEN Ops(f) ELSE IF f.type = "sparse" THEN Sparse(f) ELSE Search(f)
Spec == TInit /\ [][TStep(1, Clauses(Cases[c]))]_tvars
===============================================================================
