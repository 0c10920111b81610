----------------------------- MODULE MCModelSpace -----------------------------
EXTENDS ModelSpace
Bin == {0, 1}
Target5 == <<2, -1, 0, 3, 1>>
ASSUME Ln6(1, 1) = 0 /\ Abs(Ln6(10, 1) - 2302585) < 10 /\ Abs(Ln6(1, 3) + 1098612) < 10
       /\ Abs(Ln6(355, 113) - 1144730) < 10 /\ Abs(Ln6(2000000011, 7) - 19470503) < 10 /\ Abs(Ln6(7, 1999999999) + 19470503) < 10
       /\ \A a \in 1..60, b \in 1..60 : Abs(Ln6(a, b) + Ln6(b, a)) < 20 /\ Abs(Ln6(a * a, b) - 2 * Ln6(a, b) - Ln6(b, 1)) < 40
===============================================================================
