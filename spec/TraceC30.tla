------------------------------- MODULE TraceC30 -------------------------------
(***************************************************************************)
(* Runs of the stand-alone tools: status, the files that came into being,  *)
(* and facts about what was reported.                                      *)
(***************************************************************************)
EXTENDS TraceBase
INSTANCE Tools WITH asked <- 0, disk <- 0

SortedUp(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Report(q, o) ==
  CASE q.tool = "nested" -> Clause(o.same, "not-the-nested-lasso-of-the-library") \cup Clause(o.dset, "not-the-data-of-the-file")
    [] q.tool = "kappa" ->
         LET n == Eff(q).num IN
         (* one line per regularisation; position i of the log-spaced list, agreement in 1/1000 *)
         Clause(Len(o.index) = n /\ SeqRange(o.index) = 1..n, "not-one-line-per-regularisation")
         \cup Clause(SortedUp(o.kappa), "summary-not-sorted")
         \cup Clause(\A k \in 1..Len(o.kappa) : -1000 <= o.kappa[k] /\ o.kappa[k] <= 1000, "not-an-agreement")
         \cup Clause(\A k \in 1..Len(o.kappa) : o.index[k] \in SeqRange(o.empty) => o.kappa[k] = 1000, "empty-selections-disagree")
         \cup Clause(Len(o.first) = Len(o.index) /\ \A k \in 1..Len(o.index) : \E j \in 1..Len(o.first) : o.first[j] = o.index[k] /\ o.firstk[j] = o.kappa[k], "summary-differs-from-progress")
    [] q.tool = "plot" ->
         Clause(o.complete, "figure-not-written-completely")
         \cup Clause(~o.exact \/ (o.entrance /\ o.quality /\ o.dev), "not-the-figures-of-the-library")
         \cup Clause(~o.exact \/ (IF Eff(q).range THEN o.given ELSE o.auto), "not-the-requested-coefficient-range")
    [] q.tool = "mem" -> Clause(o.lines = 1 /\ 0 <= o.rest /\ o.rest < Bytes(Eff(q).feat) /\ o.gb = Eff(q).mem, "not-the-number-of-nodes-that-fit")
                         \cup Clause(o.bytes = Bytes(Eff(q).feat), "not-the-size-of-a-node")
Clauses(o) ==
    LET q == o.q IN
    IF o.status = "hang" THEN {"hang"}
    ELSE IF ~Answered(q) THEN Clause(o.status # "ok", "failure-reported-as-success")
    ELSE IF o.status # "ok" THEN {"request-failed"}
    ELSE Clause(SeqRange(o.files) = Outputs(q), "wrong-files") \cup Report(q, o)
Obs(i) == Cases[c].obs[i]
Spec30 == TInit /\ [][TStep(Len(Cases[c].obs), Clauses(Obs(l + 1)))]_tvars
===============================================================================
