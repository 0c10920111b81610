------------------------------- MODULE LsTraces -------------------------------
(* Recorded fits, pseudo inverses and matching pursuits of designs that LeastSquares solves. Numbers in units of 1e-4. *)
EXTENDS LeastSquares
LsTol == 4
Near(x, num, den) == Near4(x, num, den, LsTol)
NearSum(x, parts, tol) == Abs(x) < 1000000000 /\ Abs(x - SumSeq(parts)) <= tol

TinyFit(f) ==
    IF f.outcome # "ok" THEN {f.outcome}
    ELSE LET X == f.x
             n == Len(f.y)
             p == Len(X)
             S == AllOf(X)
             b == MinNorm(X, S, f.y)
             e == ResidualOf(X, S, f.y, b)
             A == TLCEval(PseudoInv(X, S))
             row(i) == [j \in 1..p |-> X[j][i]] IN
         Clause(Len(f.c) = p /\ \A j \in 1..p : Near(f.c[j], b.num[j], b.den), "not-the-exact-solution")
         \cup Clause(Len(f.pred) = n /\ \A i \in 1..n : Near(f.pred[i], b.den * f.y[i] - e[i], b.den), "prediction-not-exact")
         \cup Clause(Near(f.rss, Inner(e, e), b.den * b.den), "rss-not-exact")
         \cup Clause(\A i \in 1..n, j \in 1..p : Near(f.a[j][i], A[i].num[j], A[i].den), "not-the-exact-pseudo-inverse")
         \cup Clause(\A j, k \in 1..p : NearSum(f.b[j][k], [i \in 1..n |-> Round4(A[i].num[j] * A[i].num[k], A[i].den * A[i].den)], LsTol + n), "not-the-exact-pseudo-inverse-of-the-gram-matrix")
         \cup Clause(\A i, k \in 1..n : Near(f.h[i][k], Inner(row(i), A[k].num), A[k].den), "not-the-exact-leverage-matrix")
         (* the score weighs the squared residuals with 1 / (1 - leverage); without a leverage of one *)
         \cup LET hn == [i \in 1..n |-> Inner(row(i), A[i].num)] IN
              Clause((\E i \in 1..n : hn[i] = A[i].den \/ A[i].den > 200 \/ b.den > 200)
                     \/ NearSum(f.g2n, [i \in 1..n |-> Round4(e[i] * e[i] * A[i].den, b.den * b.den * (A[i].den - hn[i]))], LsTol + n), "cross-validation-score-not-exact")

TinyOmp(f) ==
    IF f.outcome # "ok" THEN {f.outcome}
    ELSE LET X == f.x
             n == Len(f.y)
             p == Len(X)
             S(i) == SubSeq(f.order, 1, i)
             legal == \A i \in 1..Len(f.order) : f.order[i] \in 1..p
             res(i) == Residual(X, Asc(SeqRange(S(i))), f.y)
             (* rss / n against the square of the tolerance: e.e / (n den^2) *)
             mean(i) == LET b == MinNorm(X, Asc(SeqRange(S(i))), f.y)
                            e == ResidualOf(X, Asc(SeqRange(S(i))), f.y, b) IN
                        Reduced(Inner(e, e), n * b.den * b.den)
             zero(i) == mean(i)[1] = 0
             stop(i) == Less(mean(i), f.tol)
             edge(i) == mean(i) = f.tol IN
         IF ~legal THEN {"not-a-feature"}
         ELSE IF ~Distinct(f.order) THEN {"feature-listed-twice"}
         ELSE LET m == Len(f.order)
                  B == Asc(SeqRange(f.order))
                  b == MinNorm(X, B, f.y) IN
              Clause(\A i \in 1..m : zero(i - 1) \/ f.order[i] \in Successors(X, S(i - 1), f.y), "not-the-largest-cosine")
              \cup Clause(\A i \in 2..m : ~stop(i - 1), "continued-below-the-tolerance")
              \cup Clause(m >= 1, "nothing-chosen")
              \cup Clause(m = p \/ stop(m) \/ edge(m) \/ zero(m) \/ \A j \in 1..p : Inner(X[j], res(m)) = 0, "stopped-too-early")
              \cup Clause(Len(f.c) = p /\ \A j \in 1..p : IF j \in SeqRange(B) THEN Near(f.c[j], b.num[Pos(B, j)], b.den) ELSE Abs(f.c[j]) <= LsTol, "coefficients-not-the-exact-solution")
===============================================================================
