-------------------------------- MODULE Nested --------------------------------
(***************************************************************************)
(* Design model of the nested lasso.  A path adds one feature at a time    *)
(* (orthogonal features: in the order of their correlations, only those    *)
(* above the smallest regularisation); a finished path hands its first     *)
(* floor(keep * columns) entries on to the next one, until at most two     *)
(* would remain.  The columns of a round are numbered anew, in the order   *)
(* in which the features entered; `cols` maps them to the caller's.        *)
(* The ideal statement is about sets of the caller's features.             *)
(* order: features by decreasing correlation; keep in eighths; m: how many *)
(* correlations lie above the smallest regularisation.                     *)
(***************************************************************************)
EXTENDS Lasso, TLC, Json
CONSTANTS Small,        \* numbers of features for which all orders are explored
          Large,        \* numbers of features with some orders
          Keeps, ByName \* ByName: a wrong design that keeps the numbers of the first round
VARIABLES p, bias, order, keep, m, cols, path, rounds, done
vars == <<p, bias, order, keep, m, cols, path, rounds, done>>

First == IF bias THEN 1 ELSE 0
Perms(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Coprime(a, n) == \A k \in 2..n : ~(a % k = 0 /\ n % k = 0)
Affine(n, lo) == {[i \in 1..n |-> lo + ((a * i + b) % n)] : a \in {x \in 1..(n - 1) : Coprime(x, n)}, b \in 0..(n - 1)}
Orders(n, lo) == IF n \in Small THEN Perms(lo..(lo + n - 1)) ELSE {q \in Affine(n, lo) : q[1] % 3 = 0}
Init == /\ bias \in BOOLEAN
        /\ \E n \in Small \cup Large :
           /\ p = n + First
           /\ order \in Orders(n, First)
           /\ m \in (IF n \in Small THEN 1..n ELSE {n, n - 1, n \div 2})
        /\ keep \in Keeps
        /\ cols = [i \in 1..p |-> i - 1] /\ path = <<>> /\ rounds = <<>> /\ done = FALSE
Open == {i \in 1..m : order[i] \in SeqRange(cols) /\ order[i] \notin (IF path = <<>> THEN {} ELSE SeqRange(path[Len(path)]))}
Join == /\ ~done /\ Open # {}
        /\ LET i == CHOOSE i \in Open : \A k \in Open : i <= k IN
           path' = Append(path, Append(IF path = <<>> THEN <<>> ELSE path[Len(path)], order[i]))
        /\ UNCHANGED <<p, bias, order, keep, m, cols, rounds, done>>
Number == (keep * Len(cols)) \div 8
(* what the path hands on, as columns of this round and of the caller *)
Pos(x) == CHOOSE i \in 1..Len(cols) : cols[i] = x
Picked == Relevant([k \in 1..Len(path) |-> [i \in 1..Len(path[k]) |-> Pos(path[k][i])]], Number, 1, <<>>)
NextCols == [i \in 1..Len(Picked) |-> IF ByName THEN Picked[i] - 1 ELSE cols[Picked[i]]]
Finish == /\ ~done /\ Open = {} /\ path # <<>>
          /\ rounds' = Append(rounds, path)
          /\ IF Number <= 2 THEN done' = TRUE /\ UNCHANGED <<cols, path>>
             ELSE done' = FALSE /\ cols' = NextCols /\ path' = <<>>
          /\ UNCHANGED <<p, bias, order, keep, m>>
Next == Join \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Last(s) == s[Len(s)]
Top(S, k) == {order[i] : i \in {j \in 1..m : order[j] \in S /\ Cardinality({h \in 1..(j - 1) : order[h] \in S}) < k}}
(* the surviving features, by definition *)
RECURSIVE Ideal(_)
Ideal(i) == IF i = 1 THEN 0..(p - 1) ELSE Top(Ideal(i - 1), (keep * Cardinality(Ideal(i - 1))) \div 8)
Survivors == SeqRange(cols) = Ideal(Len(rounds) + (IF done THEN 0 ELSE 1))
BestFirst == path # <<>> => SeqRange(Last(path)) = Top(SeqRange(cols), Len(path))
Within == \A i \in 2..Len(rounds) : SeqRange(Last(rounds[i])) \subseteq SeqRange(Last(rounds[i - 1]))
Ended == done => Number <= 2 /\ \A i \in 1..(Len(rounds) - 1) : (keep * Cardinality(Ideal(i))) \div 8 > 2
Shrinks == [][cols' # cols => Len(cols') < Len(cols)]_vars
Ends == <>done
Gen == done => PrintT("GEN " \o ToJson([p |-> p, bias |-> bias, order |-> order, keep |-> keep, m |-> m,
    entries |-> [i \in 1..Len(rounds) |-> Last(rounds[i])]]))
===============================================================================
