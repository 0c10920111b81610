------------------------------- MODULE TraceC29 -------------------------------
(***************************************************************************)
(* Requests made to the real code.  An observation is the request, what    *)
(* became of it ("answer", "refuse" or "hang"), and whether everything     *)
(* outside the request (the receiver of a decoding, the output file of a   *)
(* command, the arguments) was left as it was.                             *)
(***************************************************************************)
EXTENDS TraceBase
INSTANCE Requests WITH asked <- 0, answered <- 0
Clauses(q, o) ==
    Clause(o.got # "hang", "hang")
    \cup (IF Consistent(q) THEN Clause(o.got # "refuse", "consistent-request-refused")
          ELSE Clause(o.got # "answer", "inconsistent-request-answered")
               \cup Clause(o.kept, "refused-request-has-an-effect"))
Obs(i) == Cases[c].obs[i]
Spec29 == TInit /\ [][TStep(Len(Cases[c].obs), Clauses(Obs(l + 1).q, Obs(l + 1)))]_tvars
===============================================================================
