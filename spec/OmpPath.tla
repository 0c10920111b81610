------------------------------- MODULE OmpPath -------------------------------
(***************************************************************************)
(* Design model of orthogonal matching pursuit on all designs of NumFeat   *)
(* columns over Entries with Len(Target) rows (up to the order of columns; *)
(* with Mod > 1 a part of them), with exact arithmetic.  One step chooses  *)
(* one feature; ties are broken in every way.  The designs are printed and *)
(* fitted, selected from and inverted by the real code.                    *)
(***************************************************************************)
EXTENDS LeastSquares, TLC, Json, SequencesExt
CONSTANTS Entries, Target, NumFeat, Mod, Rem
VARIABLES cols, order, fit, res
vars == <<cols, order, fit, res>>
N == Len(Target)
P == 1..NumFeat
ColSeq == TLCEval(SetToSeq([1..N -> Entries]))
RECURSIVE Mix(_, _)
Mix(q, k) == IF k = 0 THEN 0 ELSE q[k] * (2 * k + 1) + 3 * Mix(q, k - 1)
Init == /\ \E q \in {x \in [P -> 1..Len(ColSeq)] : (\A i \in 1..(NumFeat - 1) : x[i] <= x[i + 1]) /\ Mix(x, NumFeat) % Mod = Rem} : cols = TLCEval([i \in P |-> ColSeq[q[i]]])
        /\ order = <<>>
        /\ fit = [num |-> <<>>, den |-> 1] /\ res = Target
NoZero == \A j \in P : Inner(cols[j], cols[j]) # 0
Cur == Asc(SeqRange(order))
Next == /\ NoZero /\ \E i \in 1..N : res[i] # 0
        /\ \E j \in Best(cols, order, ReducedSeq(res)) :
           /\ order' = Append(order, j)
           /\ fit' = MinNorm(cols, Asc(SeqRange(order')), Target)
           /\ res' = ResidualOf(cols, Asc(SeqRange(order')), Target, fit')
        /\ UNCHANGED cols
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Rss2(e, den) == <<Inner(e, e), den * den>>
(* the refit leaves a residual orthogonal to everything chosen ... *)
Orthogonal == \A j \in SeqRange(order) : Inner(cols[j], res) = 0
(* ... and has the smallest norm: it is orthogonal to every combination of the chosen columns that vanishes *)
Smallest == Rank(cols, Cur) < Len(Cur) =>
    LET R == [i \in 1..N |-> [k \in 1..Len(Cur) |-> cols[Cur[k]][i]]] IN
    \A z \in [1..Len(Cur) -> -1..1] : (\A i \in 1..N : Inner(R[i], z) = 0) => Inner(z, fit.num) = 0
Once == Distinct(order)
(* while a feature has a cosine other than zero the choice lowers the residual and raises the rank *)
Moving == \E j \in P : Inner(cols[j], res) # 0
Lowers == [][Moving => /\ Rank(cols, Asc(SeqRange(order'))) = Rank(cols, Cur) + 1
                       /\ Inner(res', Target) * fit.den
                            < Inner(res, Target) * fit'.den]_vars
(* when no feature has a cosine other than zero the residual is that of all features *)
Complete == ~Moving => ReducedSeq(res) = ReducedSeq(Residual(cols, AllOf(cols), Target))
Gen == order = <<>> => PrintT("GEN " \o ToJson([x |-> cols, y |-> Target]))
Ends == <>(~ENABLED Next)
===============================================================================
