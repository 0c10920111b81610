------------------------------- MODULE TraceC26 -------------------------------
(* Output files of the command line tools, against the same operators as the results of the library. *)
EXTENDS BnBContract, Lasso, TraceBase

Tol == 6
AtClamp(f, m) == f.logr[m + 1] = f.clamp
ItemClauses(f, e) ==
    IF e.m \notin Models(f) THEN {"not-a-model"}
    ELSE Clause(IF AtClamp(f, e.m) THEN e.s # NaN /\ e.s >= -Crit(f, e.m) - Tol ELSE Close(-e.s, Crit(f, e.m), Tol), "score-not-minus-aicc")
         \cup Clause(CloseSeq(e.co, e.truth, 1000, 100000), "coefficients-not-least-squares")

(* the root is the hidden result of the annealing run before the search *)
Bnb(f) ==
    LET E == f.items
        n == Len(E)
        ms == [i \in 1..n |-> E[i].m]
        K == SeqRange(ms)
        items == UNION {ItemClauses(f, E[i]) : i \in 1..n}
        best == -E[1].s
        worst == -E[n].s IN
    IF n = 0 THEN {"empty-list"}
    ELSE IF items # {} THEN items
    ELSE Clause(Distinct(ms), "duplicate-model") \cup Clause(n <= f.cap, "over-capacity")
         \cup Clause(SortedDesc([i \in 1..n |-> E[i].s]), "not-sorted")
         \cup (IF f.cutoff <= 0
               THEN IF AtClamp(f, ms[1]) THEN {} ELSE OptimalClauses(f, ms[1], E[1].s, Tol)
               ELSE Clause(best - MinCrit(f) <= f.cutoff + Tol, "optimum-lost-beyond-cutoff"))
         \cup Clause(\E r \in Models(f) :
                        /\ 2 * PopCount(r) < f.n
                        /\ K \subseteq MayExplore(f, r, f.cutoff, {}, Tol)
                        /\ \A m \in MustExplore(f, r, f.cutoff, best, Tol) \cup {r} :
                               m \in K \/ (n >= Max2(1, f.cap - 1) /\ Crit(f, m) >= worst - Tol), "cutoff-not-honoured")

Sa(f) ==
    LET E == f.items
        n == Len(E)
        ms == [i \in 1..n |-> E[i].m]
        K == SeqRange(ms)
        legal == {m \in Models(f) : 2 * PopCount(m) < f.n}
        (* models the search can reach: with one feature less than half the rows, rounded down *)
        reach == {m \in Models(f) : PopCount(m) < f.n \div 2}
        items == UNION {ItemClauses(f, E[i]) : i \in 1..n} \cup ItemClauses(f, f.best) \cup ItemClauses(f, f.worst) IN
    IF n = 0 THEN {"empty-list"}
    ELSE IF items # {} THEN items
    ELSE Clause(Distinct(ms), "duplicate-model") \cup Clause(n <= f.cap, "over-capacity")
         \cup Clause(K \subseteq legal, "illegal-size")
         \cup Clause(\A i \in 1..n : f.best.s >= E[i].s /\ f.worst.s <= E[i].s, "wrong-best-or-worst")
         (* a few features: every model is met at the high temperatures *)
         \cup Clause(f.p > 3 \/ (reach \subseteq K /\ n >= 1), "accepted-model-missing")

CritClauses(e) ==
    Clause(Close(e.aicc, e.nlr + e.pen, 20), "not-the-aicc-of-the-node")
    \cup Clause(Close(e.bic, e.nlr + e.kln, 20), "not-the-bic-of-the-node")
PathClauses(f) ==
    Clause(f.dset, "not-the-data-of-the-file")
    \cup (IF ~f.oksel THEN {"selection-inconsistent"}
          ELSE Clause(f.ncrit, "criteria-missing") \cup UNION {CritClauses(f.crit[i]) : i \in 1..Len(f.crit)}
               \cup Clause(~f.bias \/ \A i \in 1..Len(f.crit) : Abs(f.crit[i].mres) <= 1000, "intercept-not-in-original-units")
               \cup (IF f.type = "lars" THEN UNION {LarsNodeClauses(f, i) : i \in 1..Len(f.obs)} \cup LarsEndClauses(f)
                     ELSE Clause([k \in 1..Len(f.alts[1]) |-> f.alts[1][k].i] = CdExpected(f), "wrong-regularisations")
                          \cup (LET fails == [a \in 1..Len(f.alts) |-> UNION {CdNodeClauses(f, f.alts[a][k]) : k \in 1..Len(f.alts[a])}] IN
                                IF \E a \in 1..Len(f.alts) : fails[a] = {} THEN {} ELSE fails[1])))

Clauses(f) ==
    IF f.outcome # "ok" THEN {IF f.outcome = "hang" THEN "hang" ELSE "tool-failed"}
    ELSE IF ~f.decoded THEN {"output-file-missing-or-not-decodable"}
    ELSE CASE f.type = "bnb" -> Bnb(f) [] f.type = "sasearch" -> Sa(f) [] OTHER -> PathClauses(f)
Spec == TInit /\ [][TStep(1, Clauses(Cases[c]))]_tvars
===============================================================================
