------------------------------- MODULE TraceC19 -------------------------------
(***************************************************************************)
(* CSV files. A file is a header and a table of cells, each with a value   *)
(* (parse: exact text of the value; save: value in millionths, written as  *)
(* <<high, low>> digits). Reading moves one column to the target.          *)
(***************************************************************************)
EXTENDS TraceBase, CsvContract

G == 1000000000
Near(a, b) == \/ a = b
              \/ a[1] # NaN /\ b[1] # NaN /\
                 (\/ a[1] = b[1] /\ Abs(a[2] - b[2]) <= 1
                  \/ a[1] = b[1] + 1 /\ a[2] = 0 /\ b[2] = G - 1
                  \/ b[1] = a[1] + 1 /\ b[2] = 0 /\ a[2] = G - 1)
NearSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i])
NearTab(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : NearSeq(s[i], t[i])

(* a table that is read and written again and again, each time with another target (CsvFile.tla; values in thousandths) *)
HistClauses(r) ==
    UNION {LET o == r.obs[k]
               t == Resolve(r.hist[k], Len(r.names)) IN
           Clause(o.d.names = r.names, "header-changed")
           \cup Clause(o.d.t = t, "wrong-target-column")
           \cup Clause(o.d.y = YOf(r.vals, t), "wrong-target-values")
           \cup Clause(o.d.x = XOf(r.vals, t), "wrong-features")
           \cup Clause(o.feat = [j \in 1..(Len(r.names) - 1) |-> r.names[ColOf(j - 1, t) + 1]], "wrong-feature-name")
           \cup Clause(o.head = r.names, "wrong-header-written")
           \cup Clause(o.file = r.vals, "wrong-table-written") : k \in 1..Len(r.obs)}
    \cup Clause(Len(r.obs) = Len(r.hist), "history-incomplete")
Clauses(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE CASE r.k = "parse" ->
              LET t == Resolve(r.target, Len(r.names)) IN
              Clause(r.d.names = r.names, "header-changed")
              \cup Clause(r.d.t = t, "wrong-target-column")
              \cup Clause(r.d.y = YOf(r.vals, t), "wrong-target-values")
              \cup Clause(r.d.x = XOf(r.vals, t), "wrong-features")
           [] r.k = "hist" -> HistClauses(r)
           [] r.k = "save" ->
              Clause(Len(r.text) = 1 /\ r.text[1] = r.in.names, "wrong-header-written")
              \cup Clause(NearTab(r.num, TableOf(r.in)), "wrong-table-written")
              \cup Clause(r.back.names = r.in.names, "names-not-read-back")
              \cup Clause(r.back.t = r.in.t, "target-column-not-read-back")
              \cup Clause(NearSeq(r.back.y, r.in.y), "target-not-read-back")
              \cup Clause(NearTab(r.back.x, r.in.x), "features-not-read-back")
              \cup Clause(r.after = r.in, "saving-changes-data-set")
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
