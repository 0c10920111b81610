----------------------------- MODULE LeastSquares -----------------------------
(***************************************************************************)
(* Least squares for small integer data in exact arithmetic.  X is a       *)
(* sequence of columns, S an ascending sequence of column numbers (from    *)
(* 1).  The solution of smallest norm: with B the first independent        *)
(* columns of X_S and X_S = B C (C = N / D by Cramer's rule) it is         *)
(*   C^T (C C^T)^-1 (B^T B)^-1 B^T y = N^T adj(N N^T) m / det(N N^T),      *)
(* where m / D are the coefficients of the columns in B.                   *)
(***************************************************************************)
EXTENDS Exact

GramOf(X, S) == TLCEval([i \in 1..Len(S) |-> [j \in 1..Len(S) |-> Inner(X[S[i]], X[S[j]])]])
RECURSIVE Independent(_, _, _)
Independent(X, S, k) ==
    IF k = 0 THEN <<>>
    ELSE LET B == Independent(X, S, k - 1) IN
         IF Det(GramOf(X, Append(B, S[k]))) # 0 THEN Append(B, S[k]) ELSE B
Basis(X, S) == Independent(X, S, Len(S))
Rank(X, S) == Len(Basis(X, S))
Transposed(M, n) == TLCEval([j \in 1..n |-> [i \in 1..Len(M) |-> M[i][j]]])
(* the solution for the target y: [num |-> one numerator for each of S, den |-> common denominator] *)
MinNorm(X, S, y) ==
    LET B == Basis(X, S)
        r == Len(B)
        G == GramOf(X, B)
        D == Det(G)
        cram(v) == TLCEval([k \in 1..r |-> Det(SetCol(G, k, [i \in 1..r |-> Inner(X[B[i]], v)]))])
        m == cram(y)
        reduce(num, den) == LET u == Gcd(GcdAll(num, Len(num)), den) IN TLCEval([num |-> [i \in 1..Len(num) |-> num[i] \div u], den |-> den \div u]) IN
    IF r = 0 THEN [num |-> [i \in 1..Len(S) |-> 0], den |-> 1]
    ELSE IF r = Len(S) THEN reduce(m, D)
    ELSE LET N == TLCEval([j \in 1..Len(S) |-> cram(X[S[j]])]) (* column j of N *)
             u == GcdAll(Flat(N, Len(S)) \o <<D>>, Len(S) * r + 1)
             Nr == Transposed(TLCEval([j \in 1..Len(S) |-> [k \in 1..r |-> N[j][k] \div u]]), r) (* rows *)
             K == TLCEval([i \in 1..r |-> [j \in 1..r |-> Inner(Nr[i], Nr[j])]])
             h == Gcd(GcdAll(m, r), D)
             (* C = Nr / (D / u), C C^T = K u^2 / D^2, solution of K w = m *)
             w == TLCEval([k \in 1..r |-> Det(SetCol(K, k, [i \in 1..r |-> m[i] \div h]))])
             t == reduce(w, Det(K))
             (* beta = C^T (C C^T)^-1 m / D = (Nr^T u / D)(D^2 / u^2)(w h / det K) / D = Nr^T w h / (u det K) *)
             q == TLCEval([j \in 1..Len(S) |-> Inner([k \in 1..r |-> Nr[k][j]], t.num) * h]) IN
         reduce(q, t.den * u)
(* den times the residual *)
ResidualOf(X, S, y, b) == TLCEval([i \in 1..Len(y) |-> b.den * y[i] - Inner([k \in 1..Len(S) |-> X[S[k]][i]], b.num)])
Residual(X, S, y) == ResidualOf(X, S, y, MinNorm(X, S, y))
ReducedSeq(e) == LET u == GcdAll(e, Len(e)) IN IF u = 0 THEN e ELSE TLCEval([i \in 1..Len(e) |-> e[i] \div u])
UnitVec(n, i) == [k \in 1..n |-> IF k = i THEN 1 ELSE 0]
(* the pseudo inverse by columns, one for each row of the data *)
PseudoInv(X, S) == LET n == Len(X[1]) IN [i \in 1..n |-> MinNorm(X, S, UnitVec(n, i))]
AllOf(X) == [i \in 1..Len(X) |-> i]

(* Orthogonal matching pursuit: the columns that may follow after S (a sequence in the order of choice). *)
(* The residual may be scaled: only the order of the cosines matters. *)
Score(X, e, j) == LET d == Inner(X[j], e) IN <<d * d, Inner(X[j], X[j])>>
Best(X, S, e) ==
    LET sc == TLCEval([j \in 1..Len(X) |-> Score(X, e, j)])
        top == CHOOSE j \in 1..Len(X) : \A k \in 1..Len(X) : sc[j][1] * sc[k][2] >= sc[k][1] * sc[j][2] IN
    {j \in (1..Len(X)) \ SeqRange(S) : sc[j][1] * sc[top][2] = sc[top][1] * sc[j][2]}
Successors(X, S, y) == Best(X, S, ReducedSeq(Residual(X, Asc(SeqRange(S)), y)))
===============================================================================
