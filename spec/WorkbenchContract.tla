--------------------------- MODULE WorkbenchContract ---------------------------
(***************************************************************************)
(* A folder in which the tools are run one after another, or several at    *)
(* once: two data files a.csv and b.csv, and the output files.  A command  *)
(* is a run of a tool (or "edit": the user overwrites a.csv, or "plot":    *)
(* the path in a file is drawn).  A file holds the result of a tool on a   *)
(* data set, [tool, data, target]; "none" and "junk" stand for no file and *)
(* for one that no tool has written.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Writers == {"bnb", "sa", "lars", "cd", "nested"}
Cmd(t, d, g, o, f) == [tool |-> t, data |-> d, target |-> g, out |-> o, fault |-> f]
Default == [bnb |-> "bnbSearch.json", sa |-> "saSearch.json", lars |-> "lasso.json", cd |-> "lasso.json", nested |-> "nesteLasso.json", plot |-> "lasso.json"]
Files == {"x.json", "bnbSearch.json", "saSearch.json", "lasso.json", "nesteLasso.json"}
File(k) == IF k.out = "x" THEN "x.json" ELSE Default[k.tool]

Faults(all) ==
  IF all THEN {<<t, f>> : t \in Writers, f \in {"nofile", "ragged", "target", "flag", "number", "outdir"}} \cup {<<"cd", "type">>, <<"cd", "cov">>}
  ELSE {<<"bnb", "nofile">>, <<"bnb", "target">>, <<"sa", "ragged">>, <<"sa", "flag">>, <<"lars", "number">>, <<"lars", "nofile">>,
        <<"cd", "type">>, <<"cd", "cov">>, <<"nested", "target">>, <<"nested", "ragged">>}
Commands(all) ==
       {Cmd(t, d, g, "x", "none") : t \in Writers, d \in {"a", "b"}, g \in {-1, 0}}
  \cup {Cmd(t, "a", -1, "-", "none") : t \in Writers}
  \cup {Cmd(q[1], "a", -1, "x", q[2]) : q \in Faults(all)}
  \cup {Cmd("plot", "a", -1, o, "none") : o \in {"x", "-"}}
  \cup {Cmd("edit", "a", -1, "x", "none")}

None == [tool |-> "none", data |-> "-", target |-> 0]
Junk == [tool |-> "junk", data |-> "-", target |-> 0]
IsPath(v) == v.tool \in {"lars", "cd"}

(* ds: what the data files hold.  a.csv is overwritten by turns with the contents A and C *)
Fresh == [a |-> "A", b |-> "B"]
Edited(ds, k) == IF k.tool = "edit" THEN [ds EXCEPT !.a = IF @ = "A" THEN "C" ELSE "A"] ELSE ds

(* a run is answered, or refused: then it ends with an error and leaves everything as it was *)
Granted(k, fs) == IF k.tool = "plot" THEN IsPath(fs[File(k)]) ELSE k.fault = "none"
Writes(k) == k.tool \in Writers /\ k.fault = "none"
Result(k, ds) == [tool |-> k.tool, data |-> ds[k.data], target |-> k.target]
After(k, fs, ds) == IF Writes(k) THEN [fs EXCEPT ![File(k)] = Result(k, ds)] ELSE fs

(* commands that may run at the same time: they do not touch the same file *)
Apart(k, m) == k.tool # "edit" /\ m.tool # "edit" /\ File(k) # File(m)

RECURSIVE GroupAfter(_, _, _), GroupData(_, _)
GroupAfter(g, fs, ds) == IF g = <<>> THEN fs ELSE GroupAfter(Tail(g), After(Head(g), fs, ds), ds)
GroupData(g, ds) == IF g = <<>> THEN ds ELSE GroupData(Tail(g), Edited(ds, Head(g)))
================================================================================
