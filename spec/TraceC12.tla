------------------------------- MODULE TraceC12 -------------------------------
(***************************************************************************)
(* Coordinate descent. A solution that was reached in fewer sweeps than    *)
(* allowed has converged and is optimal up to what the stopping rule       *)
(* leaves open (r.tol).                                                    *)
(***************************************************************************)
EXTENDS Lasso, LassoTraces, TraceBase

Active(s) == {j \in 0..(Len(s) - 1) : s[j + 1] # 0}
Clauses(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE IF r.len # r.p THEN {"wrong-number-of-coefficients"}
    ELSE Clause((r.conv /\ ~r.tiny) => KKT(r.g, r.s, Active(r.s), 0..(r.p - 1), r.lamb, r.tol), "not-optimal-" \o r.kind \o "-" \o r.cov)
         \cup Clause(r.bias => r.s[1] = 0, "constant-column-selected")
         \cup Clause(r.kept, "starting-point-changed")
(* The penalties: eta/4 times the coefficient (elastic net), or its projection onto the previous coefficients (covariance lasso). *)
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + Dot(a, b, k - 1)
Correction(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE LET nn == Dot(r.old, r.old, r.p) IN
         Clause(r.elastic = 25000 * r.eta * r.now[r.f], "wrong-elastic-penalty")
         \cup Clause(r.pure = 0, "pure-lasso-has-a-penalty") \cup Clause(r.fresh = 0, "covariance-penalty-without-coefficients")
         \cup Clause(IF nn = 0 THEN r.classo = 0
                     ELSE Abs(r.classo * nn - 25000 * r.eta * r.old[r.f] * Dot(r.old, r.now, r.p)) <= nn, "wrong-covariance-penalty")
         \cup Clause(r.kept, "coefficients-changed-or-shared")
Step(f, i) == IF "type" \in DOMAIN f THEN ExactCd(f.runs[i]) ELSE IF i > Len(f.runs) THEN Clause(f.data, "data-changed") \cup UNION {Correction(f.corrs[k]) : k \in 1..Len(f.corrs)}
              ELSE Clauses(f.runs[i])
Spec == TInit /\ [][TStep(Len(Cases[c].runs) + (IF "data" \in DOMAIN Cases[c] THEN 1 ELSE 0), Step(Cases[c], l + 1))]_tvars
===============================================================================
