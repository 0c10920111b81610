------------------------------- MODULE TraceC20 -------------------------------
(* After every operation, every data set of the heap is what DatasetOps says. *)
EXTENDS DatasetOps, TraceBase

Proj(h) == [x |-> h.x, y |-> h.y, names |-> h.names, t |-> h.t]
HeapClauses(h, o) ==
    IF Len(o.heap) # Len(h) THEN {"wrong-number-of-data-sets"}
    ELSE UNION {
        LET d == o.heap[q] IN
        Clause(d.x = h[q].x, "features-differ") \cup Clause(d.y = h[q].y, "target-differs")
        \cup Clause(d.names = h[q].names, "names-differ") \cup Clause(d.t = h[q].t, "target-column-differs")
        \cup Clause(d.fn = [j \in 1..NumFeat(h[q]) |-> FeatName(h[q], j - 1)], "wrong-feature-name")
        \cup Clause(d.no = [j \in 1..NumFeat(h[q]) |-> NameToFeat(h[q], FeatName(h[q], j - 1))], "wrong-feature-number")
        \cup Clause(\A u \in 1..Len(h) : o.eq[q][u] = (h[q] = h[u]), "wrong-equality")
        : q \in 1..Len(h)}
RECURSIVE After(_, _)
After(r, k) == IF k = 0 THEN <<r.init>> ELSE Apply(After(r, k - 1), r.ops[k])
RECURSIVE Walk(_, _, _)
Walk(r, h, k) == IF k > Len(r.ops) THEN {}
                 ELSE LET h2 == Apply(h, r.ops[k])
                          cl == HeapClauses(h2, r.obs[k]) IN
                      IF cl # {} THEN cl ELSE Walk(r, h2, k + 1)
Clauses(r) == IF r.outcome # "ok" THEN {r.outcome} ELSE Walk(r, <<r.init>>, 1)
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
