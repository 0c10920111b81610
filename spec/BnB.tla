--------------------------------- MODULE BnB ---------------------------------
(***************************************************************************)
(* Design model of featselect.SelectModel: the concurrent branch-and-bound *)
(* search.  One action per critical section of the code:                   *)
(*                                                                         *)
(*   main loop      RecvScore, RecvPrune, RecvReady, Give                  *)
(*   child worker   Bounds, CheckLen, ReadBest, SendNode (rendezvous with  *)
(*                  a score worker), prune send (rendezvous = RecvPrune),  *)
(*                  Ready                                                  *)
(*   score worker   holds one node until main receives it (RecvScore)      *)
(*                                                                         *)
(* The code starts eight child workers but main hands out a parent only in *)
(* exchange for a ready token, so exactly one of them is busy at a time;   *)
(* score workers can be busy all at once (W of them here).                 *)
(*                                                                         *)
(* The switches reproduce defects that the pinned commit had (see          *)
(* known_findings.txt); with all of them TRUE the model is the code as it  *)
(* is now, with one of them FALSE TLC finds the defect.                    *)
(***************************************************************************)
EXTENDS BnBContract, TLC

CONSTANTS
    P,            \* number of features
    Rows,         \* set of row counts to consider
    FitValues,    \* possible values of the fit term
    Roots,        \* root models
    Cutoffs,
    QueueLimits,
    Priors,       \* sets of models the list already holds (an earlier search on the same data)
    W,            \* score workers
    ScoreRoot,    \* the root is scored before the search starts
    LenFirst,     \* the length of the list is checked before its best score is read
    ListGuard,    \* an empty list never prunes
    LcsRowRule,   \* "too many features" is judged by the smallest model of the subtree
    SignedCutoff, \* the queue is cleaned with the cutoff subtracted from the threshold
    BufferedReady,\* the ready message of a worker never blocks
    CurrentBest,  \* the progress record gets the best score after the insertion
    PruneOnce     \* a pruned child counts the subtree below it only

VARIABLES f, root, cutoff, qlim, prior, \* the problem (constant)
          queue, inprog, mpc, given,    \* main
          cw,                           \* the busy child worker
          sw,                           \* nodes held by score workers
          tok,                          \* ready messages in the buffer
          expl,                         \* models scored, in the list
          dup,                          \* some model was scored twice
          sp                            \* progress record [bs, ne, vol]
problem == <<f, root, cutoff, qlim, prior>>
vars == <<f, root, cutoff, qlim, prior, queue, inprog, mpc, given, cw, sw, tok, expl, dup, sp>>

ASSUME P <= 3

(* antitone fit tables; the empty model is never scored *)
Masks == 0..(Pow2(P) - 1)
Antitone(t) == \A m \in Masks : \A j \in 0..(P - 1) : ~HasBit(m, j) => t[m + 1] >= t[m + Pow2(j) + 1]
MaxFit == CHOOSE v \in FitValues : \A u \in FitValues : u <= v
MinFit == CHOOSE v \in FitValues : \A u \in FitValues : v <= u
Tables == {t \in [1..Pow2(P) -> FitValues] : t[1] = MaxFit /\ Antitone(t)}
Pen(n) == [k \in 1..(P + 1) |-> LET j == k - 1 IN IF j >= n - 1 THEN 2 * j + 2 ELSE 2 * j]
Facts == {[p |-> P, n |-> n, pen |-> Pen(n), logr |-> [m \in 1..Pow2(P) |-> IF PopCount(m - 1) >= n THEN MinFit ELSE t[m]]] :
             n \in Rows, t \in Tables}

Node(m, k, fl) == [m |-> m, k |-> k, fl |-> fl]
RootNode == Node(root, 0, FALSE)
IdleCW == [pc |-> "idle", par |-> RootNode, flip |-> FALSE]
(* bounds of a child; the empty model has none *)
LowOf(nd) == IF nd.m = 0 THEN -1000000 ELSE Lower(f, nd.m, nd.k)
BestOf(L) == IF L = {} THEN 0 ELSE -(CHOOSE x \in {Crit(f, m) : m \in L} : \A y \in {Crit(f, m) : m \in L} : x <= y)
InList == expl \cup prior
Best == BestOf(InList)
Scores(nd) == nd.m \in Models(f) /\ (nd.fl \/ (ScoreRoot = FALSE /\ nd.k = 0))

Init ==
    /\ f \in Facts /\ root \in Roots /\ cutoff \in Cutoffs /\ qlim \in QueueLimits
    /\ \E S \in Priors : prior = S \cap Models(f)
    /\ queue = <<>> /\ inprog = 2 /\ mpc = "give" /\ given = <<RootNode>>
    /\ cw = [pc |-> "idle", par |-> Node(root, 0, FALSE), flip |-> FALSE] /\ sw = {} /\ tok = 0
    /\ expl = (IF ScoreRoot /\ root \in Models(f) THEN {root} ELSE {})
    /\ dup = FALSE
    /\ sp = [bs |-> 0, ne |-> 0, vol |-> 0]

Child == Node(IF cw.flip THEN FlipBit(cw.par.m, cw.par.k) ELSE cw.par.m, cw.par.k + 1, cw.flip)

(* ------------------------------------------------------------------ main *)
(* wantChildNode <- node *)
Give == /\ mpc = "give" /\ cw.pc = "idle"
        /\ mpc' = "loop"
        /\ given' = <<>>
        /\ cw' = IF given = <<>> THEN [cw EXCEPT !.pc = "ready"]
                 ELSE [pc |-> "bounds", par |-> given[1], flip |-> FALSE]
        /\ UNCHANGED <<problem, queue, inprog, sw, tok, expl, dup, sp>>

RecvReady == /\ mpc = "loop" /\ tok > 0
             /\ tok' = tok - 1
             /\ mpc' = "give"
             /\ IF queue # <<>>
                THEN queue' = Tail(queue) /\ given' = <<Head(queue)>> /\ inprog' = inprog + 2
                ELSE UNCHANGED <<queue, given, inprog>>
             /\ UNCHANGED <<problem, cw, sw, expl, dup, sp>>

Exits(ip, q) == IF ip <= 0 /\ q = <<>> THEN "done" ELSE "loop"
Clean(q, thr) == SelectSeq(q, LAMBDA nd : LowOf(nd) <= thr)
Promising(q) == LET s == SumSeq([i \in 1..Len(q) |-> LowOf(q[i])])
                IN SelectSeq(q, LAMBDA nd : LowOf(nd) * Len(q) <= s)

RecvScore(nd) ==
    /\ mpc = "loop" /\ nd \in sw
    /\ sw' = sw \ {nd}
    /\ inprog' = inprog - 1
    /\ LET scored == Scores(nd)
           e2 == IF scored THEN expl \cup {nd.m} ELSE expl
           b1 == Best
           b2 == BestOf(e2 \cup prior)
           better == e2 # {} /\ (expl = {} \/ b2 > b1)
           q1 == IF scored /\ better THEN Clean(queue, IF SignedCutoff THEN -b2 - cutoff ELSE -b2 + cutoff) ELSE queue
           q2 == IF nd.k < P THEN Append(q1, nd) ELSE q1
           q3 == IF Len(q2) > qlim THEN Promising(q2) ELSE q2
       IN /\ expl' = e2
          /\ dup' = (dup \/ (scored /\ nd.m \in expl))
          /\ queue' = q3
          /\ sp' = [sp EXCEPT !.bs = IF CurrentBest THEN b2 ELSE b1, !.ne = Cardinality(e2)]
          /\ mpc' = Exits(inprog - 1, q3)
    /\ UNCHANGED <<problem, given, cw, tok>>

RecvPrune ==
    /\ mpc = "loop" /\ cw.pc = "prune"
    /\ inprog' = inprog - 1
    /\ sp' = [sp EXCEPT !.vol = @ + Pow2(P - cw.par.k - (IF PruneOnce THEN 1 ELSE 0)), !.bs = Best, !.ne = Cardinality(expl)]
    /\ mpc' = Exits(inprog - 1, queue)
    /\ cw' = IF cw.flip THEN [cw EXCEPT !.pc = "ready"] ELSE [cw EXCEPT !.pc = "bounds", !.flip = TRUE]
    /\ UNCHANGED <<problem, queue, given, sw, tok, expl, dup>>

(* ---------------------------------------------------------- child worker *)
TooLarge(nd) == IF LcsRowRule THEN PopCount(Lcs(nd.m, nd.k)) >= f.n ELSE PopCount(nd.m) >= f.n
Bounds == /\ cw.pc = "bounds"
          /\ cw' = [cw EXCEPT !.pc = IF TooLarge(Child) THEN "prune" ELSE "len"]
          /\ UNCHANGED <<problem, queue, inprog, mpc, given, sw, tok, expl, dup, sp>>
(* h.Len() > 0 && Lower + cutoff > -h.BestScore(): two separate reads of the list *)
CheckLen == /\ cw.pc = "len"
            /\ IF LenFirst
               THEN IF InList = {} /\ ListGuard THEN cw' = [cw EXCEPT !.pc = "send"] ELSE cw' = [cw EXCEPT !.pc = "best"]
               ELSE cw' = [cw EXCEPT !.pc = IF LowOf(Child) + cutoff > -Best THEN "best" ELSE "send"]
            /\ UNCHANGED <<problem, queue, inprog, mpc, given, sw, tok, expl, dup, sp>>
ReadBest == /\ cw.pc = "best"
            /\ IF LenFirst
               THEN cw' = [cw EXCEPT !.pc = IF LowOf(Child) + cutoff > -Best THEN "prune" ELSE "send"]
               ELSE cw' = [cw EXCEPT !.pc = IF InList = {} THEN "send" ELSE "prune"]
            /\ UNCHANGED <<problem, queue, inprog, mpc, given, sw, tok, expl, dup, sp>>
SendNode == /\ cw.pc = "send" /\ Cardinality(sw) < W /\ mpc # "done"
            /\ sw' = sw \cup {Child}
            /\ cw' = IF cw.flip THEN [cw EXCEPT !.pc = "ready"] ELSE [cw EXCEPT !.pc = "bounds", !.flip = TRUE]
            /\ UNCHANGED <<problem, queue, inprog, mpc, given, tok, expl, dup, sp>>
Ready == /\ cw.pc = "ready"
         /\ BufferedReady \/ mpc = "loop"
         /\ tok' = tok + 1
         /\ cw' = IdleCW
         /\ UNCHANGED <<problem, queue, inprog, mpc, given, sw, expl, dup, sp>>

Next == Give \/ RecvReady \/ (\E nd \in sw : RecvScore(nd)) \/ RecvPrune
        \/ Bounds \/ CheckLen \/ ReadBest \/ SendNode \/ Ready
(* when main is done the goroutines see closed channels: nothing is left to do *)
Done == mpc = "done" /\ cw.pc = "idle" /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
FairSpec == Spec /\ WF_vars(Give) /\ WF_vars(Bounds) /\ WF_vars(CheckLen) /\ WF_vars(ReadBest) /\ WF_vars(Ready)
                 /\ SF_vars(SendNode) /\ SF_vars(RecvPrune) /\ SF_vars(RecvReady)
                 /\ SF_vars(\E nd \in sw : RecvScore(nd))

(* ------------------------------------------------------------ properties *)
TypeOK == inprog \in -2..20 /\ mpc \in {"give", "loop", "done"} /\ tok \in 0..1
          /\ cw.pc \in {"idle", "bounds", "len", "best", "send", "prune", "ready"}
Finished == mpc = "done"
QueueReached == qlim < Pow2(P + 1)
BestModel == CHOOSE m \in InList : Crit(f, m) = -Best
(* C01 *)
Optimal == (Finished /\ cutoff <= 0 /\ ~QueueReached /\ Models(f) # {}) =>
              /\ InList # {}
              /\ OptimalClauses(f, BestModel, Best, 0) = {}
(* C02: only legal non-empty models, each scored once *)
OnlyModels == expl \subseteq Models(f)
ExactlyOnce == ~dup
(* C04 *)
CutoffHonoured == (Finished /\ ~QueueReached) => ExploreClauses(f, root, cutoff, prior, InList, -Best, 0) = {}
CutoffUpper == expl \subseteq MayExplore(f, root, cutoff, prior, 0)
(* C03: when the search returns no worker holds work, so that closing the channels releases all of them *)
NoOrphan == Finished => sw = {} /\ cw.pc \in {"idle", "ready"}
CountsRight == mpc # "done" => inprog = Cardinality(sw) + (IF given # <<>> THEN 2 ELSE
                   IF cw.pc \in {"idle", "ready"} THEN 0 ELSE IF cw.flip THEN 1 ELSE 2)
Terminates == <>Finished
WorkersEnd == <>(Finished /\ cw.pc = "idle")
(* C07 *)
Progress == /\ sp.ne <= Cardinality(Models(f))
            /\ sp.vol <= Pow2(P)
            /\ sp.ne > 0 => \E m \in Models(f) : sp.bs = -Crit(f, m)
ProgressMonotone == [][sp'.ne >= sp.ne /\ sp'.vol >= sp.vol
                       /\ (sp.ne > 0 => sp'.bs >= sp.bs) /\ (sp'.ne = sp.ne /\ sp.ne > 0 => sp'.bs = sp.bs)]_vars
FinalProgress == Finished => sp.ne = Cardinality(expl) /\ sp.bs = Best
BestMonotone == [][expl \subseteq expl' /\ (expl # {} => Best' >= Best)]_vars
===============================================================================
