------------------------------- MODULE TraceC18 -------------------------------
(***************************************************************************)
(* Orthogonal matching pursuit, replayed feature by feature: every choice  *)
(* against the exact cosines of the residual of the model chosen so far.   *)
(* With a residual of exactly zero the cosines are undefined: any feature  *)
(* may follow, or none.                                                    *)
(***************************************************************************)
EXTENDS TraceBase, LsTraces

Tol == 20 (* of 100000000 *)
MaxCos(s) == LET T == SeqRange(s) IN CHOOSE x \in T : \A y \in T : y <= x
Chosen(f, i) == {f.steps[k].f : k \in 1..i}
StepClauses(f, i) ==
    LET s == f.steps[i] IN
    Clause(s.f \notin Chosen(f, i - 1), "feature-listed-twice")
    \cup Clause(i = 1 \/ ~s.stop, "continued-below-the-tolerance")
    \cup Clause(s.zero \/ s.f \in Chosen(f, i - 1) \/ s.cos[s.f + 1] >= MaxCos(s.cos) - Tol, "not-the-largest-cosine")
EndClauses(f) ==
    LET rest == (0..(f.p - 1)) \ Chosen(f, Len(f.steps)) IN
    Clause(Len(f.steps) >= 1, "nothing-chosen")
    (* what is left to stop for: nothing remains, the tolerance, or a residual orthogonal to all that remains *)
    \cup Clause(rest = {} \/ f.end.stop \/ f.end.zero \/ \A j \in rest : f.end.cos[j + 1] <= Tol, "stopped-too-early")
    \cup Clause(f.len = f.p /\ CloseSeq(f.co, f.truth, 1000, 100000), "coefficients-not-least-squares")
    \cup Clause(f.len = f.p => \A j \in rest : Abs(f.co[j + 1]) <= 1000, "coefficient-of-unlisted-feature")
    \cup Clause(f.kept, "arguments-changed")
Step(f, i) ==
    IF f.outcome # "ok" THEN {f.outcome}
    ELSE IF ~f.legal THEN {"not-a-feature"}
    ELSE IF i <= Len(f.steps) THEN StepClauses(f, i) ELSE EndClauses(f)
IsExact(f) == "type" \in DOMAIN f
Num(f) == IF f.outcome # "ok" THEN 1 ELSE IF IsExact(f) THEN Len(f.runs) ELSE Len(f.steps) + 1
Spec == TInit /\ [][TStep(Num(Cases[c]), IF IsExact(Cases[c]) THEN TinyOmp(Cases[c].runs[l + 1]) ELSE Step(Cases[c], l + 1))]_tvars
===============================================================================
