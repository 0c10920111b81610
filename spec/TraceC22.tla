------------------------------- MODULE TraceC22 -------------------------------
(* Stability selection: the halves every target was evaluated on, its kappa by module Kappa, and the choice. *)
EXTENDS TraceBase
K == INSTANCE Kappa WITH Sizes <- {}, n <- 0, A <- {}, B <- {}
Million == 1000000

KappaOf(nc, s, t) ==
    LET A == SeqRange(s)
        B == SeqRange(t)
        d == K!Den(nc, A, B) IN
    IF d = 0 THEN Million ELSE (K!Num(nc, A, B) * Million) \div d
RECURSIVE KSum(_, _)
KSum(t, i) == IF i = 0 THEN 0 ELSE KSum(t, i - 1) + KappaOf(t.nc, t.calls[2 * i - 1].s, t.calls[2 * i].s)

Halves(t, i) ==
    LET u == t.calls[2 * i - 1].i
        v == t.calls[2 * i].i IN
    Clause({Len(u), Len(v)} = {t.nr \div 2, t.nr - (t.nr \div 2)}, "not-halves")
    \cup Clause(Distinct(u) /\ Distinct(v) /\ SeqRange(u) \cap SeqRange(v) = {}, "halves-not-disjoint")
    \cup Clause(SeqRange(u) \cup SeqRange(v) = 0..(t.nr - 1), "rows-left-out")
TargetClauses(t, ns) ==
    IF Len(t.calls) # 2 * ns THEN {"wrong-number-of-evaluations"}
    ELSE UNION {Halves(t, i) : i \in 1..ns}
(* with many repetitions every row is seen on both sides *)
Random(t, ns) ==
    ns < 40 \/ \A x \in 0..(t.nr - 1) :
        LET k == Cardinality({i \in 1..ns : x \in SeqRange(t.calls[2 * i - 1].i)}) IN k > 0 /\ k < ns

One(f) ==
    LET t == f.targets[1]
        b == TargetClauses(t, f.ns) IN
    b \cup (IF b # {} THEN {}
            ELSE Clause(Close(f.sum, KSum(t, f.ns), 2 * f.ns), "not-the-mean-kappa") \cup Clause(Random(t, f.ns), "partitions-not-random"))
(* repeated estimates: no partition into halves occurs in each of them *)
Parts(t, ns) == {{SeqRange(t.calls[2 * i - 1].i), SeqRange(t.calls[2 * i].i)} : i \in 1..ns}
Again(f) ==
    LET b == UNION {TargetClauses(f.targets[i], f.ns) : i \in 1..Len(f.targets)} IN
    b \cup (IF b # {} THEN {}
            ELSE Clause(~\E x \in Parts(f.targets[1], f.ns) : \A i \in 2..Len(f.targets) : x \in Parts(f.targets[i], f.ns), "partitions-not-random"))
(* What is printed: every target once with its kappa as it becomes known, and again in a summary in ascending order *)
Log(f, ks) ==
    LET n == Len(f.targets)
        L == f.log IN
    IF Len(L) # 2 * n \/ \E i \in 1..Len(L) : L[i][1] \notin 1..n THEN {"log-incomplete"}
    ELSE Clause(\A a \in {0, n} : {L[a + i][1] : i \in 1..n} = 1..n, "log-incomplete")
         \cup Clause(\A i \in 1..(2 * n) : Close(L[i][2] * 1000 * f.ns, ks[L[i][1]], 502 * f.ns), "log-wrong-kappa")
         \cup Clause(\A i \in (n + 1)..(2 * n - 1) : L[i][2] <= L[i + 1][2], "summary-not-sorted")
Ranking(f) ==
    LET n == Len(f.targets)
        b == UNION {TargetClauses(f.targets[i], f.ns) : i \in 1..n} IN
    b \cup Clause(f.leak = 0, "workers-still-running")
      \cup (IF b # {} THEN {}
            ELSE IF n = 0 THEN Clause(f.best = -1, "best-of-nothing") \cup Clause(f.log = <<>>, "log-incomplete")
            ELSE IF f.best \notin 1..n THEN {"not-the-parameters-of-a-target"}
            ELSE LET ks == [i \in 1..n |-> KSum(f.targets[i], f.ns)] IN
                 Clause(f.bestx = f.targets[f.best].x, "not-the-parameters-of-a-target")
                 \cup Log(f, ks)
                 \cup Clause(\A i \in 1..n : ks[i] <= ks[f.best] + 2 * f.ns, "not-the-most-stable-target"))
Lasso(f) ==
    Clause(f.hyper, "wrong-hyper-parameters") \cup Clause(f.dims, "not-the-design-matrix")
    \cup UNION {LET o == f.obs[i]
                    S == SeqRange(o.sel) IN
                Clause(Distinct(o.sel) /\ S \subseteq 0..(f.nc - 1), "not-a-selection")
                \cup Clause(SeqRange(o.must) \subseteq S /\ SeqRange(o.not) \cap S = {}, "not-the-lasso-selection-of-these-rows")
                \cup Clause(o.kept, "rows-changed") : i \in 1..Len(f.obs)}
Clauses(f) == IF f.outcome # "ok" THEN {f.outcome}
              ELSE CASE f.type = "one" -> One(f) [] f.type = "seq" -> Ranking(f) [] f.type = "lasso" -> Lasso(f) [] f.type = "again" -> Again(f)
Spec == TInit /\ [][TStep(1, Clauses(Cases[c]))]_tvars
===============================================================================
