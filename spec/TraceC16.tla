------------------------------- MODULE TraceC16 -------------------------------
(* Summaries of a path (nodes with integer coefficients on integer data). *)
EXTENDS Lasso, TraceBase

Sels(f) == [k \in 1..Len(f.nodes) |-> f.nodes[k].sel]
Coef(nd, j) == LET S == {i \in 1..Len(nd.sel) : nd.sel[i] = j} IN IF S = {} THEN 0 ELSE nd.co[CHOOSE i \in S : TRUE]
Pred(f, nd, i) == SumSeq([q \in 1..Len(nd.sel) |-> f.x[i][nd.sel[q] + 1] * nd.co[q]])
Rss(f, nd) == SumSeq([i \in 1..f.n |-> (f.y[i] - Pred(f, nd, i)) * (f.y[i] - Pred(f, nd, i))])
(* the criterion is asked once for every node, in order, and its values are the result *)
Criteria(f) == Clause(f.calls = [k \in 1..Len(f.nodes) |-> <<Len(f.nodes[k].sel), f.n, Rss(f, f.nodes[k])>>], "criterion-of-other-arguments")
               \cup Clause(f.vals = [k \in 1..Len(f.nodes) |-> 1000 + k], "criterion-values-not-passed-on")
Picks(f) == Clause(f.picks = [m \in 1..(f.p + 1) |-> Relevant(Sels(f), m, 1, <<>>)], "wrong-ranking")
Traj(f, j) == [k \in 1..Len(f.nodes) |-> <<f.nodes[k].ll, Coef(f.nodes[k], j)>>]
Paths(f) == Clause(f.trajs = [q \in 1..(f.p + 1) |-> Traj(f, q - 1)], "wrong-trajectory")
Features(f) == UNION {SeqRange(f.nodes[k].sel) : k \in 1..Len(f.nodes)}
MaxF(f) == CHOOSE a \in Features(f) : \A b \in Features(f) : b <= a
MinF(f) == CHOOSE a \in Features(f) : \A b \in Features(f) : b >= a
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Plots(f) ==
    LET F == 0..MaxF(f)
        first(j) == f.nodes[CHOOSE k \in 1..Len(f.nodes) : j \in SeqRange(f.nodes[k].sel) /\ \A q \in 1..(k - 1) : j \notin SeqRange(f.nodes[q].sel)].ll
        ent == {<<j, first(j)>> : j \in Features(f)}
        all == UNION {{<<f.nodes[k].sel[i], f.nodes[k].ll>> : i \in 1..Len(f.nodes[k].sel)} : k \in 1..Len(f.nodes)} IN
    Clause(f.mm = <<MinF(f), MaxF(f)>>, "wrong-extreme-features")
    \cup Clause(\A j \in F : Count(f.pl, Traj(f, j)) >= Cardinality({i \in F : Traj(f, i) = Traj(f, j)}), "feature-missing-in-plot")
    \cup Clause(\E q \in 1..Len(f.el) : SeqRange(f.el[q]) = ent /\ Len(f.el[q]) = Cardinality(ent), "wrong-first-entrances")
    \cup Clause(\E q \in 1..Len(f.es) : SeqRange(f.es[q]) = all, "wrong-entrances")
    \cup Clause(\E q \in 1..Len(f.ql) : f.ql[q] = [k \in 1..Len(f.nodes) |-> <<f.nodes[k].ll, f.aicc[k]>>], "wrong-quality-plot")
    \cup Clause(~f.hasdev \/ \E q \in 1..Len(f.dl) : Len(f.dl[q]) = Len(f.nodes) /\
                \A k \in 1..Len(f.nodes) : f.dl[q][k][1] = f.nodes[k].ll /\ Close(f.dl[q][k][2], f.dev[k], 2), "wrong-deviation-plot")
Sparse(f) == Clause(f.sparse = [k \in 1..Len(f.nodes) |-> [sel |-> f.nodes[k].sel, co |-> f.nodes[k].co]], "wrong-sparse-coefficients")
(* the printed table: the asked number of nodes with the lowest criterion, in ascending order; every row is
   rank, regularisation (hundredths of its logarithm), number of features and both criteria (bic: 1000 + node) of one node *)
RowOf(f, w, rk) == /\ Len(w) = 5 /\ w[1] = rk
                   /\ \E k \in 1..Len(f.nodes) : w[5] = 999 + k /\ w[4] = f.pra[k] /\ w[3] = Len(f.nodes[k].sel)
                                                /\ Abs(w[2] - f.nodes[k].ll \div 10000) <= 2
Printed(f) == LET m == IF f.ask < Len(f.nodes) THEN f.ask ELSE Len(f.nodes)
                  w == f.printed IN
    IF Len(w) # m THEN {"printed-number-of-models"}
    ELSE Clause(\A i \in 1..m : RowOf(f, w[i], i), "printed-row-of-no-model")
         \cup Clause(\A i, j \in 1..m : i < j => w[i][4] <= w[j][4] /\ w[i][5] # w[j][5], "printed-order")
         \cup Clause(\A k \in 1..Len(f.nodes) : m = 0 \/ f.pra[k] >= w[m][4] \/ \E i \in 1..m : w[i][5] = 999 + k, "better-model-not-printed")
Step(f, i) == IF f.outcome # "ok" THEN {f.outcome}
              ELSE CASE i = 1 -> Criteria(f) [] i = 2 -> Picks(f) [] i = 3 -> Paths(f) [] i = 4 -> Plots(f)
                     [] i = 5 -> Sparse(f) \cup Clause(f.kept, "path-changed")
                     [] i = 6 -> Printed(f)
Spec == TInit /\ [][TStep(IF Cases[c].outcome = "ok" THEN 6 ELSE 1, Step(Cases[c], l + 1))]_tvars
===============================================================================
