------------------------------ MODULE Highscore ------------------------------
(***************************************************************************)
(* Design model of featselect.Highscore: the insertion algorithm, checked  *)
(* against HighscoreContract for every sequence of insertions. The same    *)
(* run prints every complete sequence ("GEN ..."), which the driver        *)
(* replays against the real list.                                          *)
(***************************************************************************)
EXTENDS HighscoreContract, TLC, Json
CONSTANTS Caps, ScoreSet, MaxOps, KeepOne   \* KeepOne = FALSE: a list of capacity one drops what it just inserted (original defect)
VARIABLES cap, ss, items
vars == <<cap, ss, items>>

Init == cap \in Caps /\ ss = <<>> /\ items = <<>>

Score(i, s) == IF i = Len(ss) + 1 THEN s ELSE ss[i]
Insert(s) ==
    LET n == Len(ss) + 1
        len == Len(items)
        before == {i \in 1..len : ss[items[i]] < s}
        pos == CHOOSE i \in before : \A j \in before : i <= j
        placed == SubSeq(items, 1, pos - 1) \o <<n>> \o SubSeq(items, pos, len)
        reject == IF KeepOne THEN len = cap - 1 /\ len > 0 /\ ss[items[len]] > s
                  ELSE len = cap - 1 /\ (len = 0 \/ ss[items[len]] > s)
    IN /\ Len(ss) < MaxOps
       /\ ss' = Append(ss, s)
       /\ items' = IF reject THEN items
                   ELSE IF before # {} THEN (IF len + 1 >= cap THEN SubSeq(placed, 1, len) ELSE placed)
                   ELSE IF len < cap THEN Append(items, n) ELSE items
       /\ UNCHANGED cap
Next == \E s \in ScoreSet : Insert(s)
Spec == Init /\ [][Next]_vars

Contract == ListClauses(cap, ss, Len(ss), items) = {}
NoReturn == [][SeqRange(items') \subseteq SeqRange(items) \cup {Len(ss')}]_vars
Gen == Len(ss) = MaxOps => PrintT("GEN " \o ToJson([cap |-> cap, ss |-> ss]))
==============================================================================
