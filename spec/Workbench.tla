------------------------------- MODULE Workbench -------------------------------
(***************************************************************************)
(* The tools as processes in a folder.  A run reads its data when it       *)
(* starts and writes its file when it ends; the runs of a group overlap in *)
(* any order.  Whatever the order, after each group every file holds the   *)
(* result of the last run that was answered for it.                        *)
(* Design says how a run treats its output file: "good" writes it at the   *)
(* end; the others are what the invariants have to tell apart (a file      *)
(* emptied at the start, opened without truncation, an earlier result of   *)
(* the tool carried on with, one scratch file shared by all runs).         *)
(***************************************************************************)
EXTENDS WorkbenchContract, TLC, Json
CONSTANTS Len1, All, Design

VARIABLES hist, pos, st, seen, fs, ds, was, scratch
vars == <<hist, pos, st, seen, fs, ds, was, scratch>>

Groups == {<<k>> : k \in Commands(All)}
Pairs == {<<k, m>> : k \in {x \in Commands(All) : x.out = "x" /\ x.data = "a" /\ x.target = -1 /\ x.fault \in {"none", "ragged"}},
                     m \in {x \in Commands(All) : x.out = "-"}}
(* one command after another, or two at once and one after them *)
Histories == [1..Len1 -> Groups] \cup {<<g, <<Cmd("plot", "a", -1, "x", "none")>>>> : g \in {h \in Pairs : Apart(h[1], h[2])}}
Group == hist[pos]
Ready(g) == [i \in 1..Len(g) |-> "ready"]
Start0 == [f \in Files |-> None]
Init == /\ hist \in Histories /\ pos = 1 /\ st = Ready(hist[1]) /\ seen = [i \in 1..Len(hist[1]) |-> Fresh]
        /\ fs \in {Start0, [Start0 EXCEPT !["x.json"] = Junk]} /\ ds = Fresh /\ was = fs /\ scratch = None
Start(i) == /\ st[i] = "ready" /\ st' = [st EXCEPT ![i] = "running"]
            /\ seen' = [seen EXCEPT ![i] = ds] /\ ds' = Edited(ds, Group[i])
            /\ fs' = IF Design = "truncate" /\ Group[i].tool \in Writers THEN [fs EXCEPT ![File(Group[i])] = None] ELSE fs
            /\ scratch' = IF Writes(Group[i]) THEN Result(Group[i], ds) ELSE scratch
            /\ UNCHANGED <<hist, pos, was>>
Finish(i) == /\ st[i] = "running" /\ st' = [st EXCEPT ![i] = "done"]
             /\ LET k == Group[i] IN
                fs' = IF ~Writes(k) THEN fs
                      ELSE IF Design = "append" /\ fs[File(k)] # None THEN [fs EXCEPT ![File(k)] = Junk]
                      ELSE IF Design = "resume" /\ fs[File(k)].tool = k.tool THEN fs
                      ELSE IF Design = "scratch" THEN [fs EXCEPT ![File(k)] = scratch]
                      ELSE After(k, fs, seen[i])
             /\ UNCHANGED <<hist, pos, seen, ds, was, scratch>>
Done == \A i \in 1..Len(Group) : st[i] = "done"
NextGroup == /\ Done /\ pos < Len(hist) /\ pos' = pos + 1 /\ st' = Ready(hist[pos + 1])
             /\ seen' = [i \in 1..Len(hist[pos + 1]) |-> ds] /\ was' = fs /\ UNCHANGED <<hist, fs, ds, scratch>>
Next == (\E i \in 1..Len(Group) : Start(i) \/ Finish(i)) \/ NextGroup
Spec == Init /\ [][Next]_vars

(* after a group every file holds what the contract says *)
DataAtStart == seen[1]
FilesTrue == Done => fs = GroupAfter(Group, was, DataAtStart)
(* a file changes only when a run that is answered ends *)
Steady == [][\A f \in Files : fs'[f] # fs[f] => \E i \in 1..Len(Group) : st[i] = "running" /\ st'[i] = "done" /\ Writes(Group[i]) /\ File(Group[i]) = f]_vars
(* a refused run leaves no mark on what follows; an answered one is never lost *)
LastWins == \A f \in Files :
    (Done /\ \E j \in 1..pos : \E i \in 1..Len(hist[j]) : Writes(hist[j][i]) /\ File(hist[j][i]) = f) => fs[f] \notin {None, Junk}
Gen == ~(pos = 1 /\ fs["x.json"] = None /\ st = Ready(hist[1])) \/ PrintT("GEN " \o ToJson([hist |-> hist]))
================================================================================
