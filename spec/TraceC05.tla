------------------------------- MODULE TraceC05 -------------------------------
(* Bounds of sub-problems against the exact criterion of every model they cover. *)
EXTENDS BnBContract, TraceBase

Tol == 4
CritA(f, m) == f.penaic[PopCount(m) + 1] + f.logr[m + 1]
Covered(f, m, k) == {x \in Models(f) : Low(x, k) = Low(m, k)}

Clauses(f, i) ==
    LET o == f.obs[i]
        S == Covered(f, o.m, o.lvl) IN
    Clause(o.lo # NaN /\ o.up # NaN /\ o.loa # NaN /\ o.upa # NaN, "not-a-number")
    \cup Clause(\A x \in S : o.lo <= Crit(f, x) + Tol, "aicc-lower-bound-above-model")
    \cup Clause(\A x \in S : o.up >= Crit(f, x) - Tol, "aicc-upper-bound-below-model")
    \cup Clause(\A x \in S : o.loa <= CritA(f, x) + Tol, "aic-lower-bound-above-model")
    \cup Clause(\A x \in S : o.upa >= CritA(f, x) - Tol, "aic-upper-bound-below-model")
    \cup Clause(~(o.lvl = f.p /\ o.m \in Models(f)) \/
                (Close(o.lo, Crit(f, o.m), Tol) /\ Close(o.up, Crit(f, o.m), Tol)
                 /\ Close(o.loa, CritA(f, o.m), Tol) /\ Close(o.upa, CritA(f, o.m), Tol)), "not-tight-when-decided")
    \cup Clause(o.same, "model-modified")
    \cup (IF i = 1 \/ f.obs[i - 1].m # o.m \/ f.obs[i - 1].lvl + 1 # o.lvl THEN {}
          ELSE LET q == f.obs[i - 1] IN
               Clause(o.lo >= q.lo - Tol /\ o.loa >= q.loa - Tol, "lower-bound-loosened")
               \cup Clause(o.up <= q.up + Tol /\ o.upa <= q.upa + Tol, "upper-bound-loosened"))

Step(f, i) == IF i > Len(f.obs) THEN Clause(f.outcome = "ok", f.outcome) ELSE Clauses(f, i)
Spec == TInit /\ [][TStep(Len(Cases[c].obs) + 1, Step(Cases[c], l + 1))]_tvars
===============================================================================
