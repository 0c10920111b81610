------------------------------- MODULE TraceC04 -------------------------------
(***************************************************************************)
(* Searches with cutoffs and queue limits. The list has room for all       *)
(* models, so it shows which models were explored: ExploreClauses is the   *)
(* invariant CutoffHonoured of the design model.                           *)
(***************************************************************************)
EXTENDS BnBContract, TraceBase

Tol == 6

Search(f, r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE LET E == SeqRange(r.ms)
             prior == SeqRange(r.prior) \* listed by an earlier search
             Count(q, m) == Cardinality({i \in 1..Len(q) : q[i] = m})
             root == IF r.root < 0 THEN 0 ELSE r.root IN
         IF ~(E \subseteq Models(f)) THEN {"not-a-model"}
         ELSE Clause(\A m \in E : Count(r.ms, m) <= 1 + Count(r.prior, m), "duplicate-model")
              \cup Clause(\A i \in 1..Len(r.ms) : Close(-r.ss[i], Crit(f, r.ms[i]), Tol), "score-not-minus-aicc")
              \cup Clause(SortedDesc(r.ss), "not-sorted")
              \cup (IF r.qlim >= 0 /\ r.qlim < Pow2(f.p + 1)
                    THEN Clause(root \notin Models(f) \/ root \in E, "root-missing")
                    ELSE IF E = {} THEN Clause(Models(f) = {}, "empty-list")
                    ELSE ExploreClauses(f, root, r.cutoff, prior, E, -r.ss[1], Tol)
                         \cup Clause(r.cutoff > 0 \/ Abs(-r.ss[1] - MinCrit(f)) <= Tol, "optimum-lost"))

(* the two ways a queue is cut *)
Kept(q) == q.keep
CleanClauses(q) ==
    IF q.outcome # "ok" THEN {q.outcome}
    ELSE LET thr == IF q.op = "clean" THEN q.thr * Len(q.lows) ELSE SumSeq(q.lows)
             good == SelectSeq([i \in 1..Len(q.lows) |-> i], LAMBDA i : q.lows[i] * Len(q.lows) <= thr)
         IN Clause(q.keep = good, "wrong-nodes-cut")

NSteps(f) == Len(f.runs) + Len(f.queues)
Step(f, i) == IF i <= Len(f.runs) THEN Search(f, f.runs[i]) ELSE CleanClauses(f.queues[i - Len(f.runs)])
Spec == TInit /\ [][TStep(NSteps(Cases[c]), Step(Cases[c], l + 1))]_tvars
===============================================================================
