------------------------------- MODULE Expansion -------------------------------
(***************************************************************************)
(* Design model of the lazy polynomial expansion: a list of monomials      *)
(* behind the original columns, to which blocks are added (all monomials   *)
(* of some columns up to a degree, or a single one).  A block is built by  *)
(* an odometer over the exponents, digit by digit.  The finished blocks    *)
(* must be the monomials of their definition.  All histories are printed.  *)
(***************************************************************************)
EXTENDS Monomials, TLC, Json
CONSTANTS MaxP, MaxD, MaxBlocks
VARIABLES p, blocks, list, dig, counts
vars == <<p, blocks, list, dig, counts>>
Busy == dig # <<>>
Block == blocks[Len(blocks)]
Orders(C) == {q \in [1..Cardinality(C) -> C] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Start(b) == blocks' = Append(blocks, b) /\ dig' = (IF b.k = "seq" THEN [i \in 1..Len(b.cols) |-> 0] ELSE <<>>)
Unary(q) == [j \in 0..(p - 1) |-> q[j]]
Init == /\ p \in 1..MaxP
        /\ \E d \in 0..MaxD : blocks = <<[k |-> "seq", cols |-> [i \in 1..p |-> i - 1], d |-> d, pw |-> <<>>]>>
        /\ dig = [i \in 1..p |-> 0] /\ list = <<>> /\ counts = <<>>
(* one tick of the odometer: the last digit turns fastest *)
RECURSIVE Carry(_, _, _)
Carry(q, i, d) == IF i = 0 THEN <<>> ELSE IF q[i] < d THEN [q EXCEPT ![i] = @ + 1] ELSE Carry([q EXCEPT ![i] = 0], i - 1, d)
Exps(cols, q) == [j \in 0..(p - 1) |-> IF \E i \in 1..Len(cols) : cols[i] = j THEN q[CHOOSE i \in 1..Len(cols) : cols[i] = j] ELSE 0]
Tick == /\ Busy
        /\ LET s == SumSeq(dig)
               l2 == IF s >= 2 /\ s <= Block.d THEN Append(list, Exps(Block.cols, dig)) ELSE list
               n == Carry(dig, Len(dig), Block.d) IN
           /\ list' = l2 /\ dig' = n
           /\ counts' = IF n = <<>> THEN Append(counts, p + Len(l2)) ELSE counts
        /\ UNCHANGED <<p, blocks>>
AddSeq == /\ ~Busy /\ Len(blocks) < MaxBlocks
          /\ \E C \in (SUBSET (0..(p - 1))) \ {{}}, d \in 0..(MaxD - 1) : \E q \in Orders(C) :
             Start([k |-> "seq", cols |-> q, d |-> d, pw |-> <<>>])
          /\ UNCHANGED <<p, list, counts>>
AddOne == /\ ~Busy /\ Len(blocks) < MaxBlocks
          /\ \E e \in [1..p -> 0..2] :
             /\ Start([k |-> "one", cols |-> <<0>>, d |-> 0, pw |-> e])
             /\ list' = Append(list, [j \in 0..(p - 1) |-> e[j + 1]])
             /\ counts' = Append(counts, p + Len(list) + 1)
          /\ UNCHANGED p
Next == Tick \/ AddSeq \/ AddOne
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick)

Full(C, f) == [j \in 0..(p - 1) |-> IF j \in C THEN f[j] ELSE 0]
From(q) == IF q = 1 THEN 1 ELSE counts[q - 1] - p + 1
BlockRight == ~Busy => \A q \in 1..Len(blocks) :
    LET part == SubSeq(list, From(q), counts[q] - p)
        C == SeqRange(blocks[q].cols) IN
    IF blocks[q].k = "one" THEN part = <<[j \in 0..(p - 1) |-> blocks[q].pw[j + 1]]>>
    ELSE Distinct(part) /\ SeqRange(part) = {Full(C, f) : f \in Mono(C, blocks[q].d)}
Grows == [][SubSeq(list', 1, Len(list)) = list]_vars
Finishes == []<>(~Busy)
Gen == ~Busy => PrintT("GEN " \o ToJson([p |-> p, blocks |-> blocks, counts |-> counts]))
===============================================================================
