------------------------------- MODULE TraceC15 -------------------------------
(* Normalisation and its inverse. A triple is mean, variance (millionths) and the distance to the standard score. *)
EXTENDS TraceBase

Million == 1000000
Unit(t) == Abs(t[1]) <= 1 /\ Abs(t[2] - Million) <= 1 /\ t[3] <= 1
Zero(t) == t[1] = 0 /\ t[2] = 0
Same(u, v, tol) == \A i \in 1..Len(u) : Abs(u[i]) <= 1000000000 /\ Abs(v[i]) <= 1000000000 /\ Abs(u[i] - v[i]) <= tol
(* equal up to a constant *)
SameShape(u, v, tol) == \A i \in 1..Len(u) : Abs(u[i]) <= 500000000 /\ Abs(v[i]) <= 500000000 /\ Abs((u[i] - v[i]) - (u[1] - v[1])) <= tol
PathClauses(f, q) ==
    Clause(q.sel = (IF f.bias THEN <<0>> ELSE <<>>) \o q.sel0 /\ q.nco = Len(q.sel), "wrong-selection")
    \cup Clause(q.lamb, "regularisation-changed")
    \cup Clause(IF f.bias THEN Same(q.want, q.got, 20) ELSE SameShape(q.want, q.got, 20), "other-predictions")
Step(f, i) ==
    IF f.second >= 0 THEN Clause(f.outcome = "refused", "constant-column-accepted")
    ELSE IF f.outcome # "ok" THEN {f.outcome}
    ELSE Clause(f.hasbias = f.bias, "constant-column-not-detected")
         \cup Clause(Len(f.stats) = f.p + 1 /\ Unit(f.stats[1]), "target-not-normalised")
         \cup Clause(\A j \in 1..f.p : IF f.bias /\ j = 1 THEN Zero(f.stats[2]) ELSE Unit(f.stats[j + 1]), "feature-not-normalised")
         \cup Clause(\A j \in 1..Len(f.util) : Unit(f.util[j]), "array-not-normalised")
         \cup UNION {PathClauses(f, f.paths[k]) : k \in 1..Len(f.paths)}
Spec == TInit /\ [][TStep(1, Step(Cases[c], 1))]_tvars
===============================================================================
