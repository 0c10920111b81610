-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Design model of persisted highscore lists: two lists, into which nodes  *)
(* are inserted, and which are encoded and decoded into one another (the   *)
(* receiver may be a zero value or a list that was used before).  A list   *)
(* that was decoded goes on like the one that was encoded: its life is     *)
(* that of its source.  All histories are printed and replayed.            *)
(* cap 0: a zero value, which only a decoding can bring to life.           *)
(***************************************************************************)
EXTENDS HighscoreContract, TLC, Json
CONSTANTS Caps, Scores, MaxOps, Reinsert   \* Reinsert: a wrong design that decodes by inserting into the old list
VARIABLES cap, items, life, ss, ops, cap0
vars == <<cap, items, life, ss, ops, cap0>>
R == {1, 2}
Init == /\ \E a \in Caps, b \in Caps \cup {0} : cap = <<a, b>> /\ cap0 = <<a, b>>
        /\ items = <<<<>>, <<>>>> /\ life = <<<<>>, <<>>>> /\ ss = <<>> /\ ops = <<>>
Put(L, k, n, s, tt) ==
    LET len == Len(L)
        below == {i \in 1..len : tt[L[i]] < s}
        pos == CHOOSE i \in below : \A j \in below : i <= j
        placed == SubSeq(L, 1, pos - 1) \o <<n>> \o SubSeq(L, pos, len) IN
    IF len = k - 1 /\ len > 0 /\ tt[L[len]] > s THEN L
    ELSE IF below # {} THEN (IF len + 1 >= k THEN SubSeq(placed, 1, len) ELSE placed)
    ELSE IF len < k THEN Append(L, n) ELSE L
Insert(r, s) ==
    /\ cap[r] > 0
    /\ ss' = Append(ss, s)
    /\ items' = [items EXCEPT ![r] = Put(@, cap[r], Len(ss) + 1, s, ss)]
    /\ life' = [life EXCEPT ![r] = Append(@, Len(ss) + 1)]
    /\ ops' = Append(ops, [k |-> "ins", r |-> r, s |-> s]) /\ UNCHANGED <<cap, cap0>>
RECURSIVE PutAll(_, _, _)
PutAll(L, k, q) == IF q = <<>> THEN L ELSE PutAll(Put(L, k, Head(q), ss[Head(q)], ss), k, Tail(q))
Transfer(r) ==
    LET d == 3 - r IN
    /\ cap[r] > 0
    /\ cap' = [cap EXCEPT ![d] = cap[r]] /\ life' = [life EXCEPT ![d] = life[r]]
    /\ items' = [items EXCEPT ![d] = IF Reinsert THEN PutAll(items[d], cap[r], items[r]) ELSE items[r]]
    /\ ops' = Append(ops, [k |-> "cp", r |-> r, s |-> 0]) /\ UNCHANGED <<ss, cap0>>
Next == Len(ops) < MaxOps /\ \E r \in R : Transfer(r) \/ \E s \in Scores : Insert(r, s)
Spec == Init /\ [][Next]_vars

PosIn(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
(* every list keeps the promises of a list with its life *)
Contract == \A r \in R : cap[r] > 0 =>
    ListClauses(cap[r], [i \in 1..Len(life[r]) |-> ss[life[r][i]]], Len(life[r]), [i \in 1..Len(items[r]) |-> PosIn(life[r], items[r][i])]) = {}
(* two lists with the same life are equal *)
SameLife == (cap[1] = cap[2] /\ life[1] = life[2] /\ cap[2] > 0) => items[1] = items[2]
Gen == (Len(ops) = MaxOps /\ \E i \in 1..MaxOps : ops[i].k = "cp") => PrintT("GEN " \o ToJson([cap |-> cap0, ops |-> ops]))
===============================================================================
