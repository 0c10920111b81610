------------------------------- MODULE TraceC31 -------------------------------
(***************************************************************************)
(* Recorded histories of calls.  The state is that of Calls.tla: the       *)
(* content of the data and the calls that were started; a result is        *)
(* described by its distance (in 1e-9) to the values F(op, 0), F(op, 1) of *)
(* the same operation on untouched copies of the two contents.             *)
(***************************************************************************)
EXTENDS TraceBase, CallContract
VARIABLES hist, ver, calls
vars == <<c, l, bad, hist, ver, calls>>
(* the histories of a case follow each other; each starts with content 0 and no calls *)
RECURSIVE Joined(_, _)
Joined(hs, i) == IF i > Len(hs) THEN <<>> ELSE <<[k |-> "n", i |-> i]>> \o hs[i].hist \o Joined(hs, i + 1)
H == hist
Tol == 1000
(* the value a distance vector stands for: F(op, v) if it is that of content v *)
Is(call, dev) == call.ver + 1 \in 1..Len(dev) /\ dev[call.ver + 1] # NaN /\ dev[call.ver + 1] <= Tol
Clauses(e) ==
    CASE e.k = "n" -> {}
      [] e.k = "s" -> Clause(e.i = Len(calls), "harness-index")
      [] e.k = "e" -> IF e.outcome # "ok" THEN {e.outcome}
                      ELSE Clause(e.rnd \/ Is(calls[e.i + 1], e.dev), "result-depends-on-other-calls")
      [] e.k = "w" -> Clause(\A i \in 1..Len(calls) : calls[i].done, "harness-write-while-running")
      [] e.k = "a" -> Clause(e.dev[ver + 1] = 0, "arguments-changed")
      [] e.k = "r" -> Clause(e.drift = 0, "earlier-result-changed")
      [] OTHER -> {"harness-unknown-event"}
Init == TInit /\ ver = 0 /\ calls = <<>> /\ hist = (IF Crashed(c) THEN <<>> ELSE Joined(Cases[c].hists, 1))
Dead == bad = {} /\ l = 0 /\ Crashed(c) /\ bad' = {"crash"} /\ l' = 1 /\ UNCHANGED <<c, hist, ver, calls>>
Step == /\ bad = {} /\ ~Crashed(c) /\ l < Len(H)
        /\ LET e == H[l + 1] IN
           /\ bad' = Clauses(e)
           /\ ver' = IF e.k = "w" THEN e.v ELSE IF e.k = "n" THEN 0 ELSE ver
           /\ calls' = IF e.k = "n" THEN <<>>
                       ELSE IF e.k = "s" THEN Append(calls, NewCall(e.op, ver))
                       ELSE IF e.k = "e" THEN [calls EXCEPT ![e.i + 1].done = TRUE] ELSE calls
        /\ l' = l + 1 /\ UNCHANGED <<c, hist>>
Spec == Init /\ [][Dead \/ Step]_vars
===============================================================================
