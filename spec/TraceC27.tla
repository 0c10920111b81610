------------------------------- MODULE TraceC27 -------------------------------
(* Fits are checked by their normal equations in fixed point arithmetic; everything else by its definition. *)
EXTENDS TraceBase, LsTraces

Half(x) == x \div 2
(* row i of X times the coefficients (scaled by S) *)
RECURSIVE Dot(_, _, _)
Dot(x, u, k) == IF k = 0 THEN 0 ELSE x[k] * u[k] + Dot(x, u, k - 1)
RECURSIVE AbsSum(_)
AbsSum(x) == IF x = <<>> THEN 0 ELSE Abs(Head(x)) + AbsSum(Tail(x))
Col(X, a) == [i \in 1..Len(X) |-> X[i][a]]
Small(s) == \A i \in 1..Len(s) : Abs(s[i]) < Inf

FitClauses(r) ==
    IF ~r.len THEN {"wrong-length"}
    ELSE IF ~Small(r.c) \/ ~Small(r.pred) \/ (\E a \in 1..Len(r.c) : Abs(r.c[a]) > 3 * (r.S + Max2(Abs(r.truth[a]), 100000) * 100)) THEN {"not-least-squares"}
    ELSE LET n == Len(r.X)
             p == Len(r.c)
             mt == LET T == {Abs(r.truth[a]) : a \in 1..p} IN CHOOSE x \in T : \A y \in T : y <= x
             tol == Max2(3, mt \div 100000)
             near == \A a \in 1..p : Abs(r.c[a] - r.truth[a]) <= tol
             (* scaled residuals by the coefficients of the code *)
             e == [i \in 1..n |-> r.sy[i] - Dot(r.X[i], r.c, p)]
             err == [i \in 1..n |-> AbsSum(r.X[i])] IN
         (IF ~near THEN {"not-least-squares"}
          ELSE Clause(\A a \in 1..p : Abs(Dot(Col(r.X, a), e, n))
                        <= LET S == [i \in 1..n |-> Abs(r.X[i][a]) * (err[i] * Max2(1, tol) + 1)] IN SumSeq(S), "residual-not-orthogonal"))
         \cup Clause(~near \/ \A i \in 1..n : Abs(r.pred[i] - (r.sy[i] - e[i])) <= err[i] + 2, "prediction-not-the-product")
         \cup Clause(r.rss # NaN /\ Abs(r.rss - SumSeq([i \in 1..n |-> r.res[i] * r.res[i]])) <= AbsSum(r.res) + n + 1, "rss-not-the-sum-of-squares")
         \cup Clause(r.kept, "arguments-changed")

ExactClauses(r) ==
    LET n == Len(r.X)
        P == [i \in 1..n |-> Dot(r.X[i], r.c, Len(r.c))] IN
    Clause(r.pred = P, "prediction-not-the-product")
    \cup Clause(r.one = P, "single-prediction-not-the-product")
    \cup Clause(~r.inexact /\ r.rss = SumSeq([i \in 1..n |-> (P[i] - r.y[i]) * (P[i] - r.y[i])]), "rss-not-the-sum-of-squares")

AicTerm(q) == 2 * q.k * q.S + q.nlr
Den(q) == IF q.k >= q.n - 1 THEN 1 ELSE q.n - q.k - 1
CritClauses(q) ==
    Clause(Close(q.aic, AicTerm(q), 2), "not-aic")
    \cup Clause(Close(q.aicc, AicTerm(q) + (q.S \div 100) * ((2 * q.k * (q.k + 1) * 100) \div Den(q)), q.S \div 50), "not-aicc")
    \cup Clause((q.k * (q.k + 1)) % Den(q) # 0 \/ Close(q.aicc, AicTerm(q) + q.S * ((2 * q.k * (q.k + 1)) \div Den(q)), 2), "not-aicc")
    \cup Clause(Close(q.bic, q.kln + q.nlr, 2), "not-bic")

SameMat(M, T, tol) == Len(M) = Len(T) /\ \A i \in 1..Len(M) : Len(M[i]) = Len(T[i]) /\ \A j \in 1..Len(M[i]) : Close(M[i][j], T[i][j], tol)
HatClauses(r) ==
    LET n == Len(r.X)
        p == Len(r.X[1])
        h == r.h IN
    IF ~SameMat(h, r.th, 20) THEN {"not-the-leverage-matrix"}
    ELSE Clause(\A i, j \in 1..n : Abs(h[i][j] - h[j][i]) <= 2, "leverage-not-symmetric")
         \cup Clause(\A i \in 1..n, a \in 1..p : Abs(Dot(h[i], Col(r.X, a), n) - 10000 * r.X[i][a]) <= AbsSum(Col(r.X, a)) + 20, "leverage-does-not-reproduce-features")
         \cup Clause(Abs(SumSeq([i \in 1..n |-> h[i][i]]) - 10000 * r.rank) <= n + 20, "leverage-trace-not-the-rank")
PinvClauses(r) ==
    Clause(SameMat(r.a, r.ta, 200), "not-the-pseudo-inverse")
    \cup Clause(SameMat(r.b, r.tb, 200), "not-the-pseudo-inverse-of-the-gram-matrix")
    \cup HatClauses(r)

Clauses(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE CASE r.k = "fit" -> FitClauses(r)
           [] r.k = "exact" -> ExactClauses(r)
           [] r.k = "crit" -> UNION {CritClauses(r.pts[i]) : i \in 1..Len(r.pts)}
           [] r.k = "pinv" -> PinvClauses(r)
           [] r.k = "tiny" -> TinyFit(r)
           [] r.k = "gcv" -> Clause(r.pos /\ Close(r.g2n, SumSeq(r.terms), Len(r.terms) + 10), "not-the-cross-validation-score")
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
