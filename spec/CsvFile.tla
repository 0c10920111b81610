-------------------------------- MODULE CsvFile --------------------------------
(***************************************************************************)
(* Design model of files and data sets: a table of cells is read with one  *)
(* of its columns as target, written, read with another column as target   *)
(* and written again.  A cell is an index into Values (what its text is    *)
(* worth, in thousandths).  However often the table is read and written    *)
(* it stays what it was, and every column is found where it belongs.       *)
(***************************************************************************)
EXTENDS CsvContract, TLC, Json
CONSTANTS Shapes, Values, Depth
VARIABLES cells, file, data, hist
vars == <<cells, file, data, hist>>
None == [t |-> -1]
Init == /\ \E s \in Shapes : cells \in [1..s[1] -> [1..s[2] -> 1..Len(Values)]]
        /\ file = [i \in 1..Len(cells) |-> [j \in 1..Len(cells[i]) |-> Values[cells[i][j]]]]
        /\ data = None /\ hist = <<>>
NumCol == Len(cells[1])
Read == /\ Len(hist) < Depth /\ data = None
        /\ \E t \in (-NumCol)..(NumCol - 1) :
           /\ data' = [t |-> Resolve(t, NumCol), x |-> XOf(file, Resolve(t, NumCol)), y |-> YOf(file, Resolve(t, NumCol))]
           /\ hist' = Append(hist, t)
        /\ UNCHANGED <<cells, file>>
Write == /\ data # None
         /\ file' = TableOf(data)
         /\ data' = None
         /\ UNCHANGED <<cells, hist>>
Next == Read \/ Write
Spec == Init /\ [][Next]_vars
FileKept == file = [i \in 1..Len(cells) |-> [j \in 1..NumCol |-> Values[cells[i][j]]]]
InPlace == data # None => \A i \in 1..Len(cells), j \in 0..(NumCol - 2) : data.x[i][j + 1] = file[i][ColOf(j, data.t) + 1]
Whole == data # None => TableOf(data) = file
Gen == Len(hist) = Depth /\ data = None => PrintT("GEN " \o ToJson([cells |-> cells, vals |-> file, hist |-> hist]))
===============================================================================
