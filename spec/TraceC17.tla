------------------------------- MODULE TraceC17 -------------------------------
(***************************************************************************)
(* Nested lasso. F is the set of surviving features, in the numbering of   *)
(* the caller; iteration i works on the survivors of iteration i-1.        *)
(* chain: for each iteration the features in the order in which they enter *)
(* (Nested.tla; <<>> where the order is not known in advance).             *)
(***************************************************************************)
EXTENDS Lasso, TraceBase

Tol == 3000
Bare(f, sel) == IF f.bias THEN Tail(sel) ELSE sel
Sels(f, i) == [k \in 1..Len(f.paths[i].nodes) |-> Bare(f, f.paths[i].nodes[k].sel)]
Wanted(f, F) == f.floor[Cardinality(F) + 1]
RECURSIVE Survivors(_, _)
Survivors(f, i) == IF i = 1 THEN 0..(f.p - 1)
                   ELSE SeqRange(Relevant(Sels(f, i - 1), Wanted(f, Survivors(f, i - 1)), 1, <<>>))
NodeClauses(f, F, o) ==
    Clause((f.bias => o.sel # <<>> /\ o.sel[1] = 0), "intercept-missing")
    \cup (IF f.bias /\ (o.sel = <<>> \/ o.sel[1] # 0) THEN {}
          ELSE LET A == SeqRange(Bare(f, o.sel)) IN
               Clause(A \subseteq F, "feature-that-did-not-survive")
               \cup Clause(o.nco = Len(o.sel) /\ Distinct(o.sel), "selection-inconsistent")
               \cup Clause(f.bias => Abs(o.icpt - o.want) <= 30, "wrong-intercept")
               \cup (IF A \subseteq F THEN Clause(KKT(o.g, o.s, A, F, o.lamb, Tol), "not-the-lasso-solution") ELSE {}))
ChainClauses(f, i) ==
    IF f.chain = <<>> THEN {}
    ELSE IF Len(f.chain) # Len(f.paths) THEN {"wrong-number-of-iterations"}
    ELSE LET S == Sels(f, i) IN
         Clause(Len(S) = Len(f.chain[i]) /\ \A k \in 1..Len(S) : SeqRange(S[k]) = SeqRange(SubSeq(f.chain[i], 1, k)), "not-the-predicted-path")
PathClauses(f, i) ==
    LET F == Survivors(f, i)
        ph == f.paths[i] IN
    IF ph.nodes = <<>> THEN {"empty-path"} ELSE
    LET b == UNION {NodeClauses(f, F, ph.nodes[k]) : k \in 1..Len(ph.nodes)} IN
    IF b # {} THEN b
    ELSE ChainClauses(f, i)
         \cup Clause(ph.aicc = Len(ph.nodes) /\ ph.bic = Len(ph.nodes), "criteria-missing")
         \cup Clause(ph.end # <<>> /\ KKT(ph.end, ph.ends, SeqRange(Bare(f, ph.nodes[Len(ph.nodes)].sel)), F, f.lmin, Tol), "path-ends-early")
         (* the last iteration is the first that would leave at most two *)
         \cup Clause((i = Len(f.paths)) = (Wanted(f, F) <= 2), "wrong-number-of-iterations")
Step(f, i) == IF f.outcome # "ok" THEN {f.outcome}
              ELSE IF i = 1 THEN Clause(f.kept, "data-of-the-caller-changed") \cup Clause(f.same, "wrong-data-set") \cup Clause(f.paths # <<>>, "no-paths")
              ELSE PathClauses(f, i - 1)
Spec == TInit /\ [][TStep(Len(Cases[c].paths) + 1, Step(Cases[c], l + 1))]_tvars
===============================================================================
