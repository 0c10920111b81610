-------------------------------- MODULE Tools --------------------------------
(***************************************************************************)
(* The stand-alone tools: nested lasso, stability of the lasso, plots of a *)
(* path, and the size of a search queue.  A request is a choice of options *)
(* (an absent option is "-", or 99), Eff(q) the values that are in force,  *)
(* Outputs(q) the files the tool leaves behind.  TLC enumerates the        *)
(* requests; the driver makes them of the real binaries and TraceC30 says  *)
(* what has to come out.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

None == 99
Ext == {"svg", "png", "pdf", "eps"}
Requests ==
       [tool : {"nested"}, target : {None, -1, 0, 2, -2}, keep : {None, 5, 8, 9}, lamb : {"-", "0.02", "0.4"}, out : {"-", "res.json"}, fault : {"none"}]
  \cup [tool : {"nested"}, target : {None}, keep : {None}, lamb : {"-"}, out : {"-", "res.json"}, fault : {"nofile", "outdir", "flag", "number", "ragged"}]
  \cup [tool : {"kappa"}, target : {None, -1, 0, 1}, num : {None, 1, 2, 3, 15, 16, 17, 40}, samples : {1, 3}, lmin : {"-", "0.02"}, lmax : {"-", "4"}, fault : {"none"}]
  \cup [tool : {"kappa"}, target : {None}, num : {None}, samples : {1}, lmin : {"-"}, lmax : {"-"}, fault : {"nofile", "flag", "number"}]
  \cup [tool : {"plot"}, ext : Ext \cup {"-"}, prefix : {"-", "fig", "a.b"}, cmin : {"-", "0", "-2"}, cmax : {"-", "0", "3"}, fault : {"none"}]
  \cup [tool : {"plot"}, ext : {"svg"}, prefix : {"fig"}, cmin : {"-"}, cmax : {"-"}, fault : {"nofile", "outdir", "flag", "number", "ext", "damaged"}]
  \cup [tool : {"mem"}, mem : {None, 1, 2, 7, 64}, feat : {None, 1, 2, 10, 1000, 54321}, fault : {"none"}]
  \cup [tool : {"mem"}, mem : {1}, feat : {1}, fault : {"flag", "number"}]

Or(x, d) == IF x = None THEN d ELSE x
OrS(x, d) == IF x = "-" THEN d ELSE x
Names == {"entrance", "quality", "dev", "path"}

Eff(q) ==
  CASE q.tool = "nested" -> [target |-> Or(q.target, -1), keep |-> Or(q.keep, 8), lamb |-> OrS(q.lamb, "1e-10")]
    [] q.tool = "kappa" -> [target |-> Or(q.target, -1), num |-> Or(q.num, 20), lmin |-> OrS(q.lmin, "1e-5"), lmax |-> OrS(q.lmax, "1")]
    [] q.tool = "plot" -> [range |-> OrS(q.cmin, "0") # OrS(q.cmax, "0"), cmin |-> OrS(q.cmin, "0"), cmax |-> OrS(q.cmax, "0")]
    [] q.tool = "mem" -> [mem |-> Or(q.mem, 0), feat |-> Or(q.feat, 1)]
Answered(q) == q.fault = "none"
Outputs(q) ==
  IF ~Answered(q) THEN {}
  ELSE CASE q.tool = "nested" -> {OrS(q.out, "nesteLasso.json")}
         [] q.tool = "plot" -> {OrS(q.prefix, "lassofig") \o "_" \o n \o "." \o OrS(q.ext, "png") : n \in Names}
         [] OTHER -> {}
(* bytes of a node with all of its features selected *)
Bytes(feat) == feat + 8 * feat + 4 + 24 + 1

VARIABLES asked, disk
Init == asked \in Requests /\ disk = {}
Run == disk = {} /\ disk' = Outputs(asked) /\ disk' # {} /\ UNCHANGED asked
Spec == Init /\ [][Run]_<<asked, disk>>
(* nothing is written for refused requests, one file per figure otherwise *)
Sane == /\ disk # {} => Answered(asked)
        /\ (asked.tool = "plot" /\ disk # {}) => Cardinality(disk) = 4
Gen == disk # {} \/ PrintT("GEN " \o ToJson([q |-> asked, e |-> Eff(asked)]))
===============================================================================
