----------------------------- MODULE DatasetOps -----------------------------
(***************************************************************************)
(* Data sets as values: x (rows of features), y, names (of all columns,    *)
(* the target included) and the position t of the target. A heap is a      *)
(* sequence of data sets; every operation changes or adds exactly one.     *)
(***************************************************************************)
EXTENDS Bits

FeatName(d, j) == IF j < d.t THEN d.names[j + 1] ELSE d.names[j + 2]      \* j from 0
NumFeat(d) == Len(d.names) - 1
NameToFeat(d, nm) ==
    LET p == CHOOSE p \in 1..Len(d.names) : d.names[p] = nm /\ \A q \in 1..(p - 1) : d.names[q] # nm IN
    IF p - 1 > d.t THEN p - 2 ELSE p - 1
Subset(d, f) == [x |-> [i \in 1..Len(d.x) |-> [j \in 1..Len(f) |-> d.x[i][f[j] + 1]]],
                 y |-> d.y, t |-> Len(f),
                 names |-> [j \in 1..(Len(f) + 1) |-> IF j <= Len(f) THEN FeatName(d, f[j]) ELSE d.names[d.t + 1]]]
Apply(h, o) ==
    CASE o.op = "sub"  -> Append(h, Subset(h[o.d], o.feats))
      [] o.op = "copy" -> Append(h, h[o.d])
      [] o.op = "wx"   -> [h EXCEPT ![o.d].x[o.i + 1][o.j + 1] = o.v]
      [] o.op = "wy"   -> [h EXCEPT ![o.d].y[o.i + 1] = o.v]
      [] o.op = "wn"   -> [h EXCEPT ![o.d].names[o.i + 1] = o.s]
=============================================================================
