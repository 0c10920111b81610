------------------------------ MODULE LassoExact ------------------------------
(***************************************************************************)
(* The lasso problem for small integer data in exact arithmetic:           *)
(*     minimise |y - X beta|^2 / 2 + lambda |beta|_1.                      *)
(* X is a sequence of columns, b = X^T y and G = X^T X both divided by     *)
(* their common divisor U, so regularisations are in units of U.           *)
(* On the segment with active features A and signs s the coefficients are  *)
(* (c[i] - lambda d[i]) / D and the correlations with the residual are     *)
(* (e[j] + lambda f[j]) / D (Cramer's rule).  A number is <<num, den>>     *)
(* with den > 0.                                                           *)
(***************************************************************************)
EXTENDS Exact

Problem(X, y) ==
    LET P == 1..Len(X)
        g == TLCEval([i \in P |-> [j \in P |-> Inner(X[i], X[j])]])
        b == TLCEval([i \in P |-> Inner(X[i], y)])
        u == GcdAll(Flat(g, Len(X)) \o b, Len(X) * (Len(X) + 1)) IN
    TLCEval([U |-> u, G |-> [i \in P |-> [j \in P |-> g[i][j] \div u]], b |-> [i \in P |-> b[i] \div u]])

Sub(G, a) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a) |-> G[a[i]][a[j]]]])
Segment(pr, A, s) ==
    LET P == 1..Len(pr.b)
        a == Asc(A)
        M == Sub(pr.G, a)
        ba == [k \in 1..Len(a) |-> pr.b[a[k]]]
        sa == [k \in 1..Len(a) |-> s[a[k]]]
        D == Det(M)
        cc == TLCEval([k \in 1..Len(a) |-> Det(SetCol(M, k, ba))])
        dd == TLCEval([k \in 1..Len(a) |-> Det(SetCol(M, k, sa))])
        ga(j) == [k \in 1..Len(a) |-> pr.G[j][a[k]]] IN
    TLCEval([D |-> D,
     c |-> [i \in P |-> IF i \in A THEN cc[Pos(a, i)] ELSE 0],
     d |-> [i \in P |-> IF i \in A THEN dd[Pos(a, i)] ELSE 0],
     e |-> [j \in P |-> D * pr.b[j] - Inner(ga(j), cc)],
     f |-> [j \in P |-> Inner(ga(j), dd)]])
(* D times den times the coefficient / the correlation at lam *)
CoefAt(sg, i, lam) == sg.c[i] * lam[2] - lam[1] * sg.d[i]
CorrAt(sg, j, lam) == sg.e[j] * lam[2] + lam[1] * sg.f[j]

(* The solution, declaratively: the signs for which the optimality conditions hold. *)
Valid(pr, s, lam) ==
    LET P == 1..Len(pr.b)
        A == {i \in P : s[i] # 0}
        sg == Segment(pr, A, s) IN
    /\ \A i \in A : s[i] * CoefAt(sg, i, lam) > 0
    /\ \A j \in P : Abs(CorrAt(sg, j, lam)) <= sg.D * lam[1]
Patterns(p) == [1..p -> {-1, 0, 1}]
Solution(pr, lam) == CHOOSE s \in Patterns(Len(pr.b)) : Valid(pr, s, lam)
Support(s) == {i \in DOMAIN s : s[i] # 0}

(* The path, algorithmically: from one knot to the next (least angle regression). *)
(* events below lam: a feature outside reaches the correlation +-lambda, or a coefficient inside reaches zero *)
Events(pr, A, s, lam) ==
    LET P == 1..Len(pr.b)
        sg == Segment(pr, A, s)
        join == {[feat |-> j, sgn |-> t, lam |-> Reduced(sg.e[j], t * sg.D - sg.f[j])] : <<j, t>> \in
                  {x \in (P \ A) \X {-1, 1} : x[2] * sg.D - sg.f[x[1]] # 0}}
        leave == {[feat |-> i, sgn |-> 0, lam |-> Reduced(sg.c[i], sg.d[i])] : i \in {x \in A : sg.d[x] # 0}} IN
    {ev \in join \cup leave : Less(Zero, ev.lam) /\ Less(ev.lam, lam)}
NextEvents(pr, A, s, lam) == LET E == Events(pr, A, s, lam) IN {ev \in E : \A o \in E : ~Less(ev.lam, o.lam)}
(* the first feature *)
StartEvents(pr) == LET P == 1..Len(pr.b) IN
    {[feat |-> j, sgn |-> IF pr.b[j] < 0 THEN -1 ELSE 1, lam |-> <<Abs(pr.b[j]), 1>>] : j \in {x \in P : pr.b[x] # 0 /\ \A k \in P : Abs(pr.b[k]) <= Abs(pr.b[x])}}
After(A, ev) == IF ev.sgn = 0 THEN A \ {ev.feat} ELSE A \cup {ev.feat}
(* the path comes to a point with more than one event, which the property leaves open *)
RECURSIVE Tied(_, _, _, _)
Tied(pr, A, s, lam) ==
    LET E == IF A = {} THEN StartEvents(pr) ELSE NextEvents(pr, A, s, lam) IN
    IF Cardinality(E) # 1 THEN E # {}
    ELSE LET ev == CHOOSE x \in E : TRUE IN Tied(pr, After(A, ev), [s EXCEPT ![ev.feat] = ev.sgn], ev.lam)
(* the knots from lam on down, as long as there is only one event at a time *)
RECURSIVE Walk(_, _, _, _)
Walk(pr, A, s, lam) ==
    LET E == NextEvents(pr, A, s, lam) IN
    IF Cardinality(E) # 1 THEN <<>>
    ELSE LET ev == CHOOSE x \in E : TRUE
             B == After(A, ev)
             t == [s EXCEPT ![ev.feat] = ev.sgn] IN
         <<[lam |-> ev.lam, A |-> B, s |-> t]>> \o Walk(pr, B, t, ev.lam)
Knots(pr) ==
    LET E == StartEvents(pr) IN
    IF Cardinality(E) # 1 THEN <<>>
    ELSE LET ev == CHOOSE x \in E : TRUE
             A == {ev.feat}
             s == [j \in 1..Len(pr.b) |-> IF j = ev.feat THEN ev.sgn ELSE 0] IN
         <<[lam |-> ev.lam, A |-> A, s |-> s]>> \o Walk(pr, A, s, ev.lam)

===============================================================================
