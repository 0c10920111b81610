------------------------------ MODULE CsvContract ------------------------------
(* Tables in files and the data sets they are read into, with column t (from 0) as target. *)
EXTENDS Bits
Resolve(t, n) == IF t < 0 THEN t + n ELSE t
(* column of the file that feature j (from 0) is in, with the target in column t *)
ColOf(j, t) == IF j < t THEN j ELSE j + 1
(* what reading a table of cells must give *)
XOf(cells, t) == [i \in 1..Len(cells) |-> [j \in 1..(Len(cells[i]) - 1) |-> cells[i][ColOf(j - 1, t) + 1]]]
YOf(cells, t) == [i \in 1..Len(cells) |-> cells[i][t + 1]]
(* the table a data set is written as *)
TableOf(d) == [i \in 1..Len(d.y) |-> [j \in 1..(Len(d.x[i]) + 1) |->
                  IF j - 1 = d.t THEN d.y[i] ELSE IF j - 1 < d.t THEN d.x[i][j] ELSE d.x[i][j - 1]]]
===============================================================================
