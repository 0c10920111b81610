------------------------------- MODULE TraceC07 -------------------------------
(***************************************************************************)
(* What concurrent readers saw of a running search. Each step consumes one *)
(* poll of one reader; the specification keeps the last best score and the *)
(* last progress record of the reader, and which best score belongs to     *)
(* which explored count (the record is written by one thread).             *)
(***************************************************************************)
EXTENDS BnBContract, TraceBase

VARIABLES r, q, best, ne, np, seen
vars7 == <<c, l, bad, r, q, best, ne, np, seen>>
Tol == 4
Low7 == -1999999999

F == Cases[c]
Run == F.runs[r]
IsScore(f, v) == \E m \in Models(f) : Close(-v, Crit(f, m), Tol)
(* at most as many entries close to v as there are models with that criterion *)
ScoreList(f, vs, cap) ==
    Clause(SortedDesc(vs), "scores-not-sorted")
    \cup Clause(\A i \in 1..Len(vs) : IsScore(f, vs[i]), "score-of-no-model")
    \cup Clause(\A i \in 1..Len(vs) : Cardinality({j \in 1..Len(vs) : Abs(vs[j] - vs[i]) <= 1})
                                      <= Cardinality({m \in Models(f) : Abs(vs[i] + Crit(f, m)) <= 2 * Tol}), "model-listed-twice")
    \cup Clause(Len(vs) <= cap, "over-capacity")
BestOf(p) == IF p.k = "best" THEN p.v ELSE IF p.k = "prog" THEN Low7
             ELSE IF p.vs = <<>> THEN Low7 ELSE p.vs[1]

(* the pruned volume in ten thousandths of its base-2 logarithm. Pruning both children of a scored root counts
   the model space once more for the root itself: log2(1 + 2^p) <= p + 1.4427 / 2^p *)
MaxVolume(f, rn) == f.p * 10000 + 1 + (IF rn.cutoff > 0 THEN 14427 \div Pow2(f.p) + 1 ELSE 0)
AllPruned(f, rn) == rn.cutoff = Inf /\ rn.root >= 0 /\ PopCount(rn.root) \in 2..(f.n - 1)
NonePruned(f, rn) == rn.cutoff = -Inf /\ f.p < f.n

PollClauses(f, rn, p) ==
    CASE p.k = "best" -> Clause(IsScore(f, p.v), "best-of-no-model") \cup Clause(p.v >= best, "best-decreased")
      [] p.k = "scores" -> ScoreList(f, p.vs, rn.cap) \cup Clause(IF p.vs = <<>> THEN best = Low7 ELSE p.vs[1] >= best, "best-decreased")
      [] p.k = "json" ->
            IF ~p.ok THEN {"not-decodable"}
            ELSE ScoreList(f, p.vs, rn.cap)
                 \cup Clause(IF p.vs = <<>> THEN best = Low7 ELSE p.vs[1] >= best, "best-decreased")
                 \cup Clause(Distinct(p.ms) /\ SeqRange(p.ms) \subseteq Models(f), "not-distinct-models")
                 \cup Clause(\A i \in 1..Len(p.ms) : p.ms[i] \notin Models(f) \/ Close(-p.vs[i], Crit(f, p.ms[i]), Tol), "score-of-another-model")
      [] p.k = "prog" ->
            Clause(p.ne >= ne /\ p.ne <= Cardinality(Models(f)), "explored-count")
            \cup Clause(p.np >= np /\ p.np <= MaxVolume(f, rn), "pruned-volume")
            \cup Clause(IF p.ne = 0 THEN p.v = 0 ELSE IsScore(f, p.v), "progress-best-of-no-model")
            \cup Clause(p.ne \notin DOMAIN seen \/ seen[p.ne] = p.v, "progress-torn")
            \cup Clause(\A k \in DOMAIN seen : (k > 0 /\ k < p.ne) => seen[k] <= p.v, "progress-best-decreased")

FinalClauses(f, rn) ==
    IF rn.outcome # "ok" THEN {rn.outcome}
    ELSE ScoreList(f, rn.vs, rn.cap)
         \cup Clause(Distinct(rn.ms) /\ SeqRange(rn.ms) \subseteq Models(f), "not-distinct-models")
         \cup Clause(\A i \in 1..Len(rn.ms) : rn.ms[i] \notin Models(f) \/ Close(-rn.vs[i], Crit(f, rn.ms[i]), Tol), "score-of-another-model")
         \cup Clause(rn.vs # <<>> /\ rn.cutoff <= 0 => Abs(-rn.vs[1] - MinCrit(f)) <= Tol, "search-disturbed")
         \cup Clause(rn.vs = <<>> => Models(f) = {}, "empty-list")
         \cup Clause(rn.fbs = (IF rn.vs = <<>> THEN 0 ELSE rn.vs[1]), "final-progress-best")
         \cup Clause(IF rn.cap > Pow2(f.p) THEN rn.fne = Len(rn.ms) ELSE rn.fne >= Len(rn.ms) /\ rn.fne <= Cardinality(Models(f)), "final-progress-count")
         \cup Clause(rn.fnp <= MaxVolume(f, rn), "final-pruned-volume")
         \cup Clause(AllPruned(f, rn) => rn.fne = 1 /\ rn.fnp >= f.p * 10000 - 1, "pruned-volume-of-everything")
         \cup Clause(NonePruned(f, rn) => rn.fne = Cardinality(Models(f)) /\ rn.fnp = 0, "pruned-volume-of-nothing")

(* the register: every write stored the same number in all three fields *)
RegClauses(f, i) ==
    IF i > Len(f.gets)
    THEN Clause(f.outcome = "ok", f.outcome) \cup Clause(f.final = <<f.writes, f.writes, f.writes>>, "last-write-lost")
    ELSE LET g == f.gets[i] IN
         Clause(\A k \in 1..Len(g) : g[k][1] = g[k][2] /\ g[k][2] = g[k][3], "torn-read")
         \cup Clause(\A k \in 1..(Len(g) - 1) : g[k][2] <= g[k + 1][2], "record-went-back")
         \cup Clause(\A k \in 1..Len(g) : g[k][2] \in 0..f.writes, "value-never-written")

Init == TInit /\ r = 1 /\ q = 1 /\ best = Low7 /\ ne = 0 /\ np = 0 /\ seen = <<>>

RegStep == /\ ~Crashed(c) /\ F.type = "register" /\ bad = {} /\ l <= Len(F.gets)
           /\ bad' = RegClauses(F, l + 1) /\ l' = l + 1
           /\ UNCHANGED <<c, r, q, best, ne, np, seen>>
CrashStep == Crashed(c) /\ bad = {} /\ bad' = {"crash"} /\ UNCHANGED <<c, l, r, q, best, ne, np, seen>>
(* l polls of reader q of run r are consumed *)
Poll == /\ ~Crashed(c) /\ F.type = "search" /\ bad = {} /\ r <= Len(F.runs) /\ q <= Len(Run.polls)
        /\ IF l < Len(Run.polls[q])
           THEN LET p == Run.polls[q][l + 1] IN
                /\ bad' = PollClauses(F, Run, p)
                /\ l' = l + 1
                /\ best' = Max2(best, BestOf(p))
                /\ ne' = IF p.k = "prog" THEN p.ne ELSE ne
                /\ np' = IF p.k = "prog" THEN p.np ELSE np
                /\ seen' = IF p.k = "prog" THEN (p.ne :> p.v) @@ seen ELSE seen
                /\ UNCHANGED q
           ELSE l' = 0 /\ q' = q + 1 /\ best' = Low7 /\ ne' = 0 /\ np' = 0 /\ UNCHANGED <<bad, seen>>
        /\ UNCHANGED <<c, r>>
EndRun == /\ ~Crashed(c) /\ F.type = "search" /\ bad = {} /\ r <= Len(F.runs) /\ q > Len(Run.polls)
          /\ bad' = FinalClauses(F, Run)
                    \cup Clause(\A k \in DOMAIN seen : k <= Run.fne /\ (k = 0 \/ Run.outcome # "ok" \/ seen[k] <= Run.fbs), "progress-beyond-final")
          /\ r' = r + 1 /\ q' = 1 /\ l' = 0 /\ best' = Low7 /\ ne' = 0 /\ np' = 0 /\ seen' = <<>>
          /\ UNCHANGED c
Spec == Init /\ [][RegStep \/ CrashStep \/ Poll \/ EndRun]_vars7
===============================================================================
