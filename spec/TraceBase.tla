------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common frame of the trace specifications.  A trace file holds one case  *)
(* per line (what the real code did, and exact facts about the input).     *)
(* Each case is one behaviour: step l consumes its l-th observation and    *)
(* sets bad to the names of the clauses the observation breaks.  The       *)
(* invariant Conforms says that no observation breaks a clause.  A case in *)
(* which the process under test died has the single observation "crash".   *)
(***************************************************************************)
EXTENDS Bits, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, bad
tvars == <<c, l, bad>>

Crashed(i) == "crash" \in DOMAIN Cases[i]
TInit == c \in 1..Len(Cases) /\ l = 0 /\ bad = {}
TStep(nsteps, clauses) ==
    /\ bad = {}
    /\ IF Crashed(c) THEN l = 0 /\ bad' = {"crash"}
                     ELSE l < nsteps /\ bad' = clauses
    /\ l' = l + 1
    /\ UNCHANGED c
Conforms == bad = {}

(* numbers out of the range TLC can represent *)
NaN == 2000000000
Inf == 1900000000
Close(a, b, tol) == a # NaN /\ b # NaN /\ (a = b \/ (Abs(a) < Inf /\ Abs(b) < Inf /\ Abs(a - b) <= tol))
(* relative to the larger magnitude, one part in rel *)
CloseRel(a, b, tol, rel) == Close(a, b, Max2(tol, Max2(Abs(a), Abs(b)) \div rel))
CloseSeq(s, t, tol, rel) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CloseRel(s[i], t[i], tol, rel)
=============================================================================
