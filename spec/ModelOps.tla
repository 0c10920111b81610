------------------------------- MODULE ModelOps -------------------------------
(***************************************************************************)
(* A set of features and its packed representation in cells of CellBits    *)
(* bits: setting and flipping one feature. Agree relates the two.         *)
(***************************************************************************)
EXTENDS Bits, TLC, Json
CONSTANTS Sizes, MaxOps, CellBits
VARIABLES n, S, cells, ops
vars == <<n, S, cells, ops>>
DoSet(T, i) == T \cup {i}
DoFlip(T, i) == IF i \in T THEN T \ {i} ELSE T \cup {i}
Init == n \in Sizes /\ S = {} /\ ops = <<>> /\ cells = [k \in 0..(n \div CellBits) |-> {}]
Step(kind, i) ==
    /\ Len(ops) < MaxOps
    /\ ops' = Append(ops, <<kind, i>>)
    /\ S' = IF kind = 1 THEN DoSet(S, i) ELSE DoFlip(S, i)
    /\ cells' = [cells EXCEPT ![i \div CellBits] = IF kind = 1 THEN DoSet(@, i % CellBits) ELSE DoFlip(@, i % CellBits)]
    /\ UNCHANGED n
Places == {i \in 0..(n - 1) : i \in {0, 1, CellBits - 1, CellBits, n - 1}}
Next == \E kind \in {1, 2}, i \in Places : Step(kind, i)
Spec == Init /\ [][Next]_vars
Agree == \A i \in 0..(n - 1) : (i \in S) = ((i % CellBits) \in cells[i \div CellBits])
Gen == Len(ops) = MaxOps => PrintT("GEN " \o ToJson([n |-> n, ops |-> ops]))
===============================================================================
