--------------------------------- MODULE Exact ---------------------------------
(* Exact arithmetic with small integers: determinants, fractions <<num, den>> with den > 0. *)
(* TLCEval(v) is v; it keeps TLC from evaluating the same entries many times. *)
EXTENDS Bits, TLC

RECURSIVE IDot(_, _, _)
IDot(v, w, k) == IF k = 0 THEN 0 ELSE v[k] * w[k] + IDot(v, w, k - 1)
Inner(v, w) == IDot(v, w, Len(v))
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
RECURSIVE GcdAll(_, _)
GcdAll(q, k) == IF k = 0 THEN 0 ELSE Gcd(Abs(q[k]), GcdAll(q, k - 1))
RECURSIVE Flat(_, _)
Flat(m, k) == IF k = 0 THEN <<>> ELSE Flat(m, k - 1) \o m[k]
(* determinants by expansion along the first row; M is a sequence of rows *)
Without(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
RECURSIVE Det(_)
RECURSIVE Expand(_, _)
Expand(M, j) == IF j = 0 THEN 0
                ELSE Expand(M, j - 1) + (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j]
                     * (IF M[1][j] = 0 THEN 0 ELSE Det(TLCEval([i \in 1..(Len(M) - 1) |-> Without(M[i + 1], j)])))
Det(M) == IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1] ELSE Expand(M, Len(M))

Asc(A) == LET RECURSIVE S(_) S(B) == IF B = {} THEN <<>> ELSE LET m == CHOOSE x \in B : \A y \in B : x <= y IN <<m>> \o S(B \ {m}) IN S(A)
SetCol(M, k, v) == TLCEval([i \in 1..Len(M) |-> [M[i] EXCEPT ![k] = v[i]]])
Pos(a, x) == CHOOSE k \in 1..Len(a) : a[k] = x

Less(q, r) == LET a == q[1] \div q[2]
                  b == r[1] \div r[2] IN
              a < b \/ (a = b /\ (q[1] - a * q[2]) * r[2] < (r[1] - b * r[2]) * q[2])
Same(q, r) == ~Less(q, r) /\ ~Less(r, q)
Reduced(n, d) == LET h == Gcd(Abs(n), Abs(d)) IN IF d > 0 THEN <<n \div h, d \div h>> ELSE <<-(n \div h), -(d \div h)>>
Zero == <<0, 1>>

(* num / den (den > 0) in units of 1e-4, to about one unit *)
Round4(num, den) ==
    LET h == den \div 200000 + 1
        n == num \div h
        d == den \div h
        q == n \div d IN
    10000 * q + (10000 * (n - q * d)) \div d
Near4(x, num, den, tol) == Abs(x) < 100000000 /\ Abs(x - Round4(num, den)) <= tol
===============================================================================
