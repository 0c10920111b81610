------------------------------- MODULE SaChain -------------------------------
(***************************************************************************)
(* What an observer of the cost function knows about the annealing chain.  *)
(* Shared by the design model (Annealing) and the trace spec (TraceC10).   *)
(* f: [p, classes, ...]; an observation o is <<size, class, rank of cost>>,*)
(* a class is the set of all models of that size and residual sum of       *)
(* squares.  Whether a model of higher cost was accepted is hidden: poss   *)
(* is the set of all <<current model, its cost>> the chain may be in, sure *)
(* and maybe are the models certainly and possibly accepted so far.        *)
(***************************************************************************)
EXTENDS Bits, FiniteSetsExt
Unset == 1000000 (* the cost of a model that was not evaluated yet *)

Evaluated(f, o) == IF o[2] = 0 THEN {} ELSE SeqRange(f.classes[o[2]])
(* models the chain can propose from m; wide data: models are numbers and f.nb lists their neighbours *)
Moves(f, m) == IF Len(f.nb) > 0 THEN SeqRange(f.nb[m]) (* numbered models *)
               ELSE {x \in {FlipBit(m, j) : j \in 0..(f.p - 1)} : x # 0} \cup (IF PopCount(m) = 1 THEN {m} ELSE {})
StartPoss(f) == IF Len(f.nb) > 0 THEN {<<m, Unset>> : m \in 1..Len(f.nb)} ELSE {<<m, Unset>> : m \in 1..(Pow2(f.p) - 1)}
NextPoss(f, o, poss) ==
    UNION {LET E == Moves(f, s[1]) \cap Evaluated(f, o)
               T == {<<m, o[3]>> : m \in E} IN
           IF E = {} THEN {} ELSE IF o[3] < s[2] THEN T ELSE {s} \cup T : s \in poss}
Proposed(f, o, poss) == UNION {Moves(f, s[1]) : s \in poss} \cap Evaluated(f, o)
NextMaybe(f, o, poss, maybe) == maybe \cup Proposed(f, o, poss)
(* only one model can have been evaluated, and it was better than the current one whichever that was *)
NextSure(f, o, poss, sure) ==
    LET P == Proposed(f, o, poss) IN
    IF Cardinality(P) = 1 /\ \A s \in poss : (Moves(f, s[1]) \cap P # {} => o[3] < s[2]) THEN sure \cup P ELSE sure
==============================================================================
