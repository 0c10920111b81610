------------------------------- MODULE Datasets -------------------------------
(***************************************************************************)
(* Design model: every sequence of subset, copy and write operations on a  *)
(* small data set. prov remembers, independently of positions, the column  *)
(* of the first data set every feature came from.                          *)
(***************************************************************************)
EXTENDS DatasetOps, TLC, Json
CONSTANTS P, MaxOps
VARIABLES heap, prov, ops, t0
vars == <<heap, prov, ops, t0>>
N == 1
Init == /\ t0 \in 0..P
        /\ ops = <<>>
        /\ heap = <<[x |-> <<[j \in 1..P |-> 10 + j]>>, y |-> <<-1>>, t |-> t0, names |-> [j \in 1..(P + 1) |-> "n" \o ToString(j - 1)]]>>
        /\ prov = <<[j \in 1..P |-> j - 1]>>
W(d) == Len(prov[d])
Perms(S) == {s \in UNION {[1..k -> S] : k \in 1..2} : \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}
Op(k, d, f, i, j, v, s) == [op |-> k, d |-> d, feats |-> f, i |-> i, j |-> j, v |-> v, s |-> s]
Do(o, pr) == ops' = Append(ops, o) /\ heap' = Apply(heap, o) /\ prov' = pr /\ UNCHANGED t0
Next == /\ Len(ops) < MaxOps
        /\ \E d \in 1..Len(heap) :
             \/ \E f \in Perms(0..(W(d) - 1)) : Do(Op("sub", d, f, 0, 0, 0, ""), Append(prov, [q \in 1..Len(f) |-> prov[d][f[q] + 1]]))
             \/ Do(Op("copy", d, <<>>, 0, 0, 0, ""), Append(prov, prov[d]))
             \/ Do(Op("wx", d, <<>>, 0, 0, 1000 + Len(ops), ""), prov)
             \/ Do(Op("wy", d, <<>>, 0, 0, 2000 + Len(ops), ""), prov)
Spec == Init /\ [][Next]_vars
(* the name of a feature is the name of the column it came from; the target keeps its name *)
OrigName(j) == "n" \o ToString(IF j < t0 THEN j ELSE j + 1)
NamesFollow == \A d \in 1..Len(heap) :
    /\ heap[d].names[heap[d].t + 1] = "n" \o ToString(t0)
    /\ \A j \in 1..W(d) : /\ FeatName(heap[d], j - 1) = OrigName(prov[d][j])
                           /\ NameToFeat(heap[d], FeatName(heap[d], j - 1)) = j - 1
(* values that nobody wrote to are those of the column of origin *)
ValuesFollow == \A d \in 1..Len(heap) : \A j \in 1..W(d) :
    heap[d].x[1][j] \in {10 + prov[d][j] + 1} \cup (1000..(1000 + MaxOps))
Gen == Len(ops) = MaxOps => PrintT("GEN " \o ToJson([n |-> N, p |-> P, t |-> t0, ops |-> ops]))
===============================================================================
