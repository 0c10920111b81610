--------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* Design model of the three worker pools of the library: the coordinate   *)
(* descent path (LassoCrdDescPath), the kappa sequence                     *)
(* (CalculateCohenSequence) and the threshold search (L2ConsistentCovTO).  *)
(* A main loop hands out jobs over an unbuffered channel and collects the  *)
(* results over another one; a job is <<round, index>> (only the threshold *)
(* search has more than one round).                                        *)
(*                                                                         *)
(*   path   the result of index i is stored at position i; the next job    *)
(*          starts from the result stored at the "highest" position        *)
(*   kappa  the index with the largest value so far is remembered          *)
(*   grid   values are summed up by index; when all indices of a round     *)
(*          have been received the next round starts with one job, whose   *)
(*          partition is the one of the new round                          *)
(*                                                                         *)
(* Index 1 is the job that is handed out first.  The switches are TRUE for *)
(* the code as it is; with one of them FALSE the model is a pool with a    *)
(* defect that TLC finds (tools/designmut.py).                             *)
(***************************************************************************)
EXTENDS Bits, TLC, Json
CONSTANTS Kind, Sizes, W, Rounds, Values,
          ByIndex,     \* results are stored by the index they carry, not by arrival
          FirstCounts, \* the first result received is remembered whatever its value
          WaitRound,   \* a new partition is drawn only when all results of the round were received
          Release      \* the work channel is closed at the end

VARIABLES n, val,          \* number of jobs per round, value of every job (kappa)
          mpc,             \* main: "start", "send", "recv", "end"
          started,         \* workers started so far
          next,            \* index of the next job
          job,             \* job main wants to send
          part,            \* round of the current partition
          recv,            \* jobs received, in order
          wk,              \* worker -> [pc, job]
          nodes, highest,  \* path: stored results (0: none), position the next start vector is taken from
          best,            \* kappa: remembered index
          acc,             \* grid: index -> sequence of rounds added
          bad              \* a start vector was read that did not exist
vars == <<n, val, mpc, started, next, job, part, recv, wk, nodes, highest, best, acc, bad>>
ASSUME Kind \in {"path", "kappa", "grid"} /\ Rounds \in Nat \ {0} /\ (Kind # "grid" => Rounds = 1)

NoJob == <<0, 0>>
NW == IF Kind = "kappa" THEN W ELSE Min2(W, n)
Init == /\ n \in Sizes /\ val \in [1..n -> {v - 1 : v \in Values}]   \* a configuration cannot hold negative numbers
        /\ mpc = "start" /\ started = 0 /\ next = 1 /\ job = NoJob /\ part = 1 /\ recv = <<>>
        /\ wk = [w \in 1..W |-> [pc |-> "new", job |-> NoJob]]
        /\ nodes = [i \in 1..n |-> 0] /\ highest = 1 /\ best = 0 /\ acc = [i \in 1..n |-> <<>>] /\ bad = FALSE

(* start a worker, and give it something to do as long as there is something *)
Start == /\ mpc = "start"
         /\ IF started < NW
            THEN /\ started' = started + 1
                 /\ wk' = [wk EXCEPT ![started + 1].pc = "idle"]
                 /\ IF next <= n THEN mpc' = "send" /\ job' = <<part, next>> /\ next' = next + 1
                    ELSE UNCHANGED <<mpc, job, next>>
            ELSE mpc' = (IF n = 0 THEN "end" ELSE "recv") /\ UNCHANGED <<started, wk, job, next>>
         /\ UNCHANGED <<n, val, part, recv, nodes, highest, best, acc, bad>>
Send(w) == /\ mpc = "send" /\ wk[w].pc = "idle"
           /\ wk' = [wk EXCEPT ![w] = [pc |-> "busy", job |-> job]]
           /\ job' = NoJob
           /\ mpc' = IF recv = <<>> THEN "start" ELSE "recv"
           /\ UNCHANGED <<n, val, started, next, part, recv, nodes, highest, best, acc, bad>>
Finish(w) == /\ wk[w].pc = "busy" /\ wk' = [wk EXCEPT ![w].pc = "full"]
             /\ UNCHANGED <<n, val, mpc, started, next, job, part, recv, nodes, highest, best, acc, bad>>

Total == n * Rounds
(* position in the list of ascending regularisations is reversed: index 1 is the largest *)
HighestAfter(i) == IF n - i > highest - 1 THEN i ELSE highest  \* the code compares a position with an index
Recv(w) ==
    /\ mpc = "recv" /\ wk[w].pc = "full"
    /\ wk' = [wk EXCEPT ![w] = [pc |-> "idle", job |-> NoJob]]
    /\ LET j == wk[w].job
           k == Len(recv) + 1
           slot == IF ByIndex THEN j[2] ELSE ((k - 1) % n) + 1
           full == k % n = 0
           newpart == IF full \/ ~WaitRound THEN part + 1 ELSE part
           more == IF Kind # "grid" THEN next <= n
                   ELSE IF full THEN k < Total ELSE next <= n /\ k < Total
           nj == IF Kind # "grid" THEN <<1, next>> ELSE IF full THEN <<newpart, 1>> ELSE <<newpart, next>>
       IN /\ recv' = Append(recv, j)
          /\ nodes' = [nodes EXCEPT ![slot] = j[2]]
          /\ highest' = HighestAfter(slot)
          /\ best' = IF (k = 1 /\ FirstCounts) \/ (best # 0 /\ val[j[2]] > val[best]) \/ (best = 0 /\ val[j[2]] > 0) THEN j[2] ELSE best
          /\ acc' = [acc EXCEPT ![j[2]] = Append(@, j[1])]
          /\ bad' = (bad \/ (Kind = "path" /\ more /\ nodes'[highest'] = 0))
          /\ part' = IF Kind = "grid" THEN newpart ELSE part
          /\ IF more THEN mpc' = "send" /\ job' = nj /\ next' = nj[2] + 1
             ELSE /\ mpc' = IF k < Total THEN "recv" ELSE "end"
                  /\ UNCHANGED <<job, next>>
    /\ UNCHANGED <<n, val, started>>
(* the work channel is closed: idle workers end *)
Stop(w) == /\ mpc = "end" /\ Release /\ wk[w].pc = "idle" /\ wk' = [wk EXCEPT ![w].pc = "ended"]
           /\ UNCHANGED <<n, val, mpc, started, next, job, part, recv, nodes, highest, best, acc, bad>>
Next == Start \/ \E w \in 1..W : Send(w) \/ Finish(w) \/ Recv(w) \/ Stop(w)
Done == mpc = "end" /\ (\A w \in 1..W : wk[w].pc \in {"new", "ended"}) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
FairSpec == Spec /\ WF_vars(Next)

End == mpc = "end"
Idx(s) == {s[k][2] : k \in 1..Len(s)}
(* C13 *)
PathRight == (Kind = "path" /\ End) => \A i \in 1..n : nodes[i] = i
StartExists == ~bad
(* C22 *)
BestRight == (Kind = "kappa" /\ End /\ n > 0) => best # 0 /\ \A i \in 1..n : val[i] <= val[best]
(* C23 *)
SamePartitions == (Kind = "grid" /\ End) => \A i \in 1..n : Len(acc[i]) = Rounds /\ SeqRange(acc[i]) = SeqRange(acc[1])
(* all of them: each job is answered once, and nothing is left when main is done *)
EachOnce == Distinct(recv) /\ (End => Len(recv) = Total)
NothingLeft == End => \A w \in 1..W : wk[w].pc \in {"new", "idle", "ended"}
WorkersEnd == <>(End /\ \A w \in 1..W : wk[w].pc \in {"new", "ended"})
(* completion orders that were found, for the replay against the real pools *)
Gen == (End /\ \A w \in 1..W : wk[w].pc # "idle") =>
           PrintT("GEN " \o ToJson([n |-> n, val |-> [i \in 1..n |-> val[i]], order |-> [k \in 1..Len(recv) |-> recv[k][2]]]))
===============================================================================
