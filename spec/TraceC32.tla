------------------------------- MODULE TraceC32 -------------------------------
(***************************************************************************)
(* Recorded histories of runs in one folder: the state is the one of       *)
(* Workbench.tla; an observation is a group of runs that overlap, their    *)
(* statuses, and what every file holds afterwards.                         *)
(***************************************************************************)
EXTENDS TraceBase, WorkbenchContract
VARIABLES fs, ds
vars == <<c, l, bad, fs, ds>>
H == Cases[c].hist
Written(g) == {File(g[i]) : i \in {j \in 1..Len(g) : Writes(g[j])}}
Plots(g) == {i \in 1..Len(g) : g[i].tool = "plot" /\ Granted(g[i], fs)}
Clauses(e) ==
    LET g == e.cmds
        want == GroupAfter(g, fs, ds) IN
    UNION {Clause(e.status[i] # "hang", "hang")
           \cup Clause(Granted(g[i], fs) => e.status[i] \in {"ok", "hang"}, "valid-run-refused")
           \cup Clause(~Granted(g[i], fs) => e.status[i] # "ok", "invalid-run-not-refused") : i \in 1..Len(g)}
    \cup Clause(\A f \in Written(g) : want[f] \in SeqRange(e.fs[f]), "file-not-the-result-of-the-last-run")
    \cup Clause(\A f \in Files \ Written(g) : f \in SeqRange(e.kept), "file-changed-by-a-run-that-was-not-to-write-it")
    \cup Clause(e.figures = 4 * Cardinality(Plots(g)), "wrong-number-of-figures")
    \cup Clause(e.others = <<>>, "other-files-left-behind")
    \cup Clause(e.inputs, "data-file-changed")
Init == /\ TInit /\ ds = Fresh
        /\ fs = [f \in Files |-> IF ~Crashed(c) /\ f = "x.json" /\ Cases[c].junk THEN Junk ELSE None]
Dead == bad = {} /\ l = 0 /\ Crashed(c) /\ bad' = {"crash"} /\ l' = 1 /\ UNCHANGED <<c, fs, ds>>
Step == /\ bad = {} /\ ~Crashed(c) /\ l < Len(H)
        /\ LET e == H[l + 1] IN
           /\ bad' = Clauses(e)
           /\ fs' = GroupAfter(e.cmds, fs, ds)
           /\ ds' = GroupData(e.cmds, ds)
        /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Dead \/ Step]_vars
===============================================================================
