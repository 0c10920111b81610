----------------------------- MODULE PathHistory -----------------------------
(***************************************************************************)
(* Design model of the summaries of a path: nodes are appended one by one  *)
(* (any non-empty selection may follow any other), and the summaries are   *)
(* kept up to date incrementally: features in the order of their first     *)
(* appearance, the node of the first appearance, and the appearances.      *)
(* They must be what the definitions over the whole path say.  All paths   *)
(* are printed and summarised by the real code.                            *)
(***************************************************************************)
EXTENDS Lasso, TLC, Json
CONSTANTS NumFeat, MaxNodes
VARIABLES sels, order, first, seen
vars == <<sels, order, first, seen>>
F == 0..(NumFeat - 1)
AscSeq(A) == LET RECURSIVE S(_) S(B) == IF B = {} THEN <<>> ELSE LET x == CHOOSE a \in B : \A b \in B : a <= b IN <<x>> \o S(B \ {x}) IN S(A)
Init == sels = <<>> /\ order = <<>> /\ first = [j \in F |-> 0] /\ seen = {}
Append1 == /\ Len(sels) < MaxNodes
           /\ \E A \in (SUBSET F) \ {{}} :
              /\ sels' = Append(sels, AscSeq(A))
              /\ order' = order \o AscSeq({j \in A : first[j] = 0})
              /\ first' = [j \in F |-> IF j \in A /\ first[j] = 0 THEN Len(sels) + 1 ELSE first[j]]
              /\ seen' = seen \cup {<<j, Len(sels) + 1>> : j \in A}
Next == Append1
Spec == Init /\ [][Next]_vars

(* the ranking of the first m features is a prefix of the order, cut at the end of the node that completes m *)
RankingIsPrefix == \A m \in 1..(NumFeat + 1) :
    LET R == Relevant(sels, m, 1, <<>>) IN
    /\ R = SubSeq(order, 1, Len(R))
    /\ Len(R) >= m \/ R = order
    /\ \A k \in 1..Len(sels) : Cardinality({j \in F : first[j] # 0 /\ first[j] <= k}) >= m => \A i \in 1..Len(R) : first[R[i]] <= k
FirstIsFirst == \A j \in F : first[j] # 0 => /\ j \in SeqRange(sels[first[j]])
                                             /\ \A k \in 1..(first[j] - 1) : j \notin SeqRange(sels[k])
OnceEach == Distinct(order) /\ SeqRange(order) = UNION {SeqRange(sels[k]) : k \in 1..Len(sels)}
SeenAll == seen = UNION {{<<sels[k][i], k>> : i \in 1..Len(sels[k])} : k \in 1..Len(sels)}
Stable == [][\A j \in F : first[j] # 0 => first'[j] = first[j]]_vars
Gen == sels # <<>> => PrintT("GEN " \o ToJson([p |-> NumFeat, sels |-> sels]))
===============================================================================
