-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Design model: calls into the library by several threads on one data     *)
(* set, which its owner overwrites between calls.  A call with operation   *)
(* op on content v has the value F(op, v), whatever ran before or runs at  *)
(* the same time; results that were handed out stay as they are; calls do  *)
(* not touch the data.  Mode "pure" is the required behaviour, the others  *)
(* are the ways to lose it: remembering results by operation ("memo"),     *)
(* handing out a shared buffer ("scratch"), working in place ("inplace").  *)
(* CallContract.tla says the same of recorded executions.                  *)
(***************************************************************************)
EXTENDS CallContract, TLC, Json
CONSTANTS MaxCalls, MaxWrites, NumThreads, Mode
VARIABLES ver, run, calls, content, memo, buf, hist
vars == <<ver, run, calls, content, memo, buf, hist>>
Ops == {"a", "b"}
T == 1..NumThreads
Idle(t) == run[t] = 0
Quiet == \A t \in T : Idle(t)
Init == /\ ver = 0 /\ run = [t \in T |-> 0] /\ calls = <<>> /\ content = 0
        /\ memo = [o \in Ops |-> None] /\ buf = None /\ hist = <<>>
Start(t, o) ==
    /\ Idle(t) /\ \A u \in 1..(t - 1) : ~Idle(u)
    /\ Len(calls) < MaxCalls
    /\ calls' = Append(calls, NewCall(o, ver))
    /\ run' = [run EXCEPT ![t] = Len(calls) + 1]
    /\ hist' = Append(hist, [k |-> "s", t |-> t, op |-> o, v |-> 0])
    /\ UNCHANGED <<ver, content, memo, buf>>
Finish(t) ==
    LET i == run[t]
        o == calls[i].op
        val == IF Mode = "memo" /\ memo[o] # None THEN memo[o] ELSE F(o, content)
    IN  /\ ~Idle(t)
        /\ calls' = [calls EXCEPT ![i].val = IF Mode = "scratch" THEN Shared ELSE val, ![i].done = TRUE]
        /\ memo' = [memo EXCEPT ![o] = val]
        /\ buf' = val
        /\ content' = IF Mode = "inplace" THEN Spoilt ELSE content
        /\ run' = [run EXCEPT ![t] = 0]
        /\ hist' = Append(hist, [k |-> "e", t |-> t, op |-> o, v |-> 0])
        /\ UNCHANGED ver
Writes == Cardinality({i \in 1..Len(hist) : hist[i].k = "w"})
Write == /\ Quiet /\ calls # <<>> /\ Len(calls) < MaxCalls /\ Writes < MaxWrites /\ hist[Len(hist)].k # "w"
         /\ ver' = 1 - ver /\ content' = 1 - ver
         /\ hist' = Append(hist, [k |-> "w", t |-> 0, op |-> "", v |-> 1 - ver])
         /\ UNCHANGED <<run, calls, memo, buf>>
Next == (\E t \in T : (\E o \in Ops : Start(t, o)) \/ Finish(t)) \/ Write
Spec == Init /\ [][Next]_vars
Value(i) == IF calls[i].val = Shared THEN buf ELSE calls[i].val
ResultsTrue == \A i \in 1..Len(calls) : calls[i].done => Right(calls[i], Value(i))
DataKept == content = ver
Gen == (Len(calls) = MaxCalls /\ Quiet) => PrintT("GEN " \o ToJson(hist))
===============================================================================
