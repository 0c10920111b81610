------------------------------- MODULE AiccTable -------------------------------
(* The table of AICc over the space of sub-models, computed from small integer data, in units of 1e-4. *)
EXTENDS LeastSquares

(* natural logarithm of the fraction a / b (both positive and below 4e8) in units of 1e-6, to about ten units *)
RECURSIVE Digits(_, _, _)
Digits(r, d, k) == IF k = 0 THEN 0 ELSE LET t == 10 * r IN (t \div d) * 10^(k - 1) + Digits(t % d, d, k - 1)
LnNear1(a, b) == \* 2/3 <= a / b <= 4/3
    LET d == IF a < b THEN b - a ELSE a - b
        h == (a + b) \div 200000000 + 1
        z == Digits(d \div h, (a + b) \div h, 6)
        w == ((z \div 100) * (z \div 100)) \div 100
        w2 == (w * w) \div 1000000
        w3 == (w * w2) \div 1000000
        t == w \div 3 + w2 \div 5 + w3 \div 7
        v == 2 * (z + ((z \div 10) * t) \div 100000) IN
    IF a < b THEN -v ELSE v
Ln2 == 693147
RECURSIVE Ln6(_, _)
Ln6(a, b) ==
    IF a > 400000000 THEN Ln6(a \div 2, b) + Ln2
    ELSE IF b > 400000000 THEN Ln6(a, b \div 2) - Ln2
    ELSE IF 3 * a > 4 * b THEN (IF b < 200000000 THEN Ln6(a, 2 * b) ELSE Ln6(a \div 2, b)) + Ln2
    ELSE IF 3 * a < 2 * b THEN (IF a < 200000000 THEN Ln6(2 * a, b) ELSE Ln6(a, b \div 2)) - Ln2
    ELSE LnNear1(a, b)
LnClamp == -27631021 \* ln(1e-12)

(* residual sum of squares of the columns S as <<num, den>>: (D y.y - m.b) / D *)
RssOf(X, S, y) ==
    LET B == Basis(X, S)
        G == GramOf(X, B)
        D == Det(G)
        b == TLCEval([i \in 1..Len(B) |-> Inner(X[B[i]], y)])
        m == TLCEval([k \in 1..Len(B) |-> Det(SetCol(G, k, b))]) IN
    Reduced(D * Inner(y, y) - Inner(m, b), D)
Cols(m, p) == LET T == Asc({j + 1 : j \in SetOf(m, p)}) IN T
FitTerm(X, y, m) ==
    LET n == Len(y)
        p == Len(X)
        r == RssOf(X, Cols(m, p), y) IN
    (IF PopCount(m) >= n \/ r[1] = 0 THEN n * LnClamp ELSE n * Ln6(r[1], r[2])) \div 100
Penalty(k, n) == 20000 * k + (20000 * k * (k + 1)) \div (IF k >= n - 1 THEN 1 ELSE n - k - 1)
(* the facts that BnBContract judges *)
FactsOf(X, y) == [p |-> Len(X), n |-> Len(y),
                  pen |-> TLCEval([k \in 1..(Len(X) + 1) |-> Penalty(k - 1, Len(y))]),
                  logr |-> TLCEval([i \in 1..Pow2(Len(X)) |-> FitTerm(X, y, i - 1)])]
===============================================================================
