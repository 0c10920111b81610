------------------------------ MODULE LassoPath ------------------------------
(***************************************************************************)
(* Design model of the lasso path algorithm in exact arithmetic: all       *)
(* problems whose columns and target are permutations of Base (up to the   *)
(* order of rows and columns; with Mod > 1 a part of them).  One step is   *)
(* one knot.  The algorithm is compared with the declarative solution.     *)
(***************************************************************************)
EXTENDS LassoExact, TLC, Json, SequencesExt
CONSTANTS Base, NumFeat, Mod, Rem, Grid
VARIABLES cols, pr, lam, A, s, tie, done, knots
vars == <<cols, pr, lam, A, s, tie, done, knots>>
N == Len(Base)
PermSet == {q \in [1..N -> SeqRange(Base)] : \A i, j \in 1..N : i # j => q[i] # q[j]}
PermSeq == SetToSeq(PermSet)
P == 1..NumFeat
Triples == {q \in [P -> 1..Len(PermSeq)] : (\A i \in 1..(NumFeat - 1) : q[i] < q[i + 1])}
RECURSIVE Mix(_, _)
Mix(q, k) == IF k = 0 THEN 0 ELSE q[k] * (2 * k + 1) + 3 * Mix(q, k - 1)
Init == /\ cols \in {[i \in P |-> PermSeq[q[i]]] : q \in {x \in Triples : Mix(x, NumFeat) % Mod = Rem}}
        /\ pr = Problem(cols, Base)
        /\ Det(pr.G) # 0
        /\ lam = <<1000, 1>> /\ A = {} /\ s = [j \in P |-> 0]
        /\ tie = FALSE /\ done = FALSE /\ knots = 0
Ev == IF A = {} THEN StartEvents(pr) ELSE NextEvents(pr, A, s, lam)
Step == /\ ~done /\ Cardinality(Ev) = 1
        /\ LET ev == CHOOSE x \in Ev : TRUE IN
           /\ A' = After(A, ev) /\ s' = [s EXCEPT ![ev.feat] = ev.sgn] /\ lam' = ev.lam
        /\ knots' = knots + 1
        /\ UNCHANGED <<cols, pr, tie, done>>
End == /\ ~done /\ Cardinality(Ev) # 1
       /\ done' = TRUE /\ tie' = (Ev # {})
       /\ UNCHANGED <<cols, pr, lam, A, s, knots>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sg == Segment(pr, A, s)
(* at a knot the segment below it satisfies the optimality conditions ... *)
Optimal == A # {} => /\ \A i \in A : s[i] * CoefAt(Sg, i, lam) >= 0
                     /\ \A j \in P : Abs(CorrAt(Sg, j, lam)) <= Sg.D * lam[1]
                     /\ \A i \in A : CorrAt(Sg, i, lam) = s[i] * Sg.D * lam[1]
(* ... and it is the declarative solution *)
Agrees == A # {} => LET t == Solution(pr, lam)
                        sg == Segment(pr, Support(t), t) IN
                    /\ Support(t) \subseteq A
                    /\ \A i \in P : CoefAt(sg, i, lam) * Sg.D = CoefAt(Sg, i, lam) * sg.D
(* exactly one sign pattern is valid at every regularisation on a grid *)
Unique == done => \A k \in Grid : Cardinality({t \in Patterns(NumFeat) : Valid(pr, t, <<k, 2>>)}) = 1
(* a path that was not stopped by a tie ends with least squares *)
EndsAtLeastSquares == done /\ ~tie => \A j \in P : Abs(CorrAt(Sg, j, Zero)) = 0
Decreasing == [][lam' # lam => Less(lam', lam)]_vars
Ends == <>done
Gen == done => PrintT("GEN " \o ToJson([x |-> cols, y |-> Base, u |-> pr.U, tie |-> tie, knots |-> knots]))
===============================================================================
