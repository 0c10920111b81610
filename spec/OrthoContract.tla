--------------------------- MODULE OrthoContract ---------------------------
(***************************************************************************)
(* The promises of the search for orthogonal designs of +-1 entries, where *)
(* facts about all 2^p models follow from p numbers.  f.gain[j+1] is the   *)
(* reduction of n*RSS by feature j, f.yy is n*RSS of the empty model,      *)
(* f.top[k+1] the smallest n*RSS with k features, f.crit[k+1] its AICc.    *)
(***************************************************************************)
EXTENDS TraceBase

OTol == 4
RECURSIVE GainOf(_, _)
GainOf(f, sel) == IF sel = <<>> THEN 0 ELSE f.gain[Head(sel) + 1] + GainOf(f, Tail(sel))
(* the k largest gains are what the table of smallest residuals says *)
TopOk(f) == \A k \in 1..f.p : \E j \in 1..f.p : f.top[k] - f.top[k + 1] = f.gain[j]
            /\ Cardinality({i \in 1..f.p : f.gain[i] > f.gain[j]}) < k
            /\ Cardinality({i \in 1..f.p : f.gain[i] >= f.gain[j]}) >= k
OMin(f) == LET S == {f.crit[k + 1] : k \in {k \in 1..f.p : k < f.n}} IN CHOOSE x \in S : \A y \in S : x <= y
OLegal(f, e) == e.len = f.p /\ StrictAsc(e.sel) /\ Len(e.sel) \in 1..(f.n - 1) /\ e.r = f.yy - GainOf(f, e.sel)
OEntryClauses(f, e) ==
    IF ~OLegal(f, e) THEN {"not-a-model"}
    ELSE Clause(Close(-e.s, e.own, OTol), "score-not-minus-aicc")
         \cup Clause(e.lo # NaN /\ e.lo <= e.own + OTol, "lower-bound-above")
         \cup Clause(e.up # NaN /\ e.up >= e.own - OTol, "upper-bound-below")
         \cup Clause(CloseSeq(e.c, [k \in 1..Len(e.sel) |-> f.coef[e.sel[k] + 1]], 5, 10000), "coefficients-not-least-squares")
OListClauses(f, r) ==
    UNION {OEntryClauses(f, r.entries[i]) : i \in 1..Len(r.entries)}
    \cup Clause(Distinct([i \in 1..Len(r.entries) |-> r.entries[i].sel]), "duplicate-model")
    \cup Clause(SortedDesc([i \in 1..Len(r.entries) |-> r.entries[i].s]), "not-sorted")
    \cup Clause(Len(r.entries) <= r.cap, "over-capacity")
OOptimalClauses(f, r) ==
    IF r.entries = <<>> THEN {"empty-list"}
    ELSE LET e == r.entries[1] IN
         IF ~OLegal(f, e) THEN {"no-legal-best"}
         ELSE Clause(TopOk(f), "harness-table-wrong")
              \cup Clause(Abs(-e.s - OMin(f)) <= OTol, "score-not-optimal")
              \cup Clause(e.own <= OMin(f) + OTol, "model-not-optimal")
=============================================================================
