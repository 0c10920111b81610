----------------------------- MODULE CallContract -----------------------------
(***************************************************************************)
(* What a call promises: its value is a function of its operation and of   *)
(* the content of its arguments.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
None == <<"none", 0>>
Shared == <<"shared", 0>>
Spoilt == 9
F(op, v) == <<op, v>>
NewCall(op, v) == [op |-> op, ver |-> v, val |-> None, done |-> FALSE]
Right(call, val) == val = F(call.op, call.ver)
===============================================================================
