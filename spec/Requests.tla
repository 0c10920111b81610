------------------------------- MODULE Requests -------------------------------
(***************************************************************************)
(* Requests to the library and its command line tools, by shape only: the  *)
(* numbers of rows, columns, coefficients and so on, and the kind of       *)
(* damage done to a file or a command line.  Consistent(q) says which of   *)
(* them are to be answered; all others are to be refused (by a panic, an   *)
(* error or an exit status), without a result and without an effect.       *)
(* TLC enumerates all requests of Requests and the driver makes them.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Heads == 2..3
Rows == UNION {[1..k -> 1..4] : k \in 0..2}
Damages == {"none", "cut1", "cut2", "cut3", "cut4", "cut5", "cut6", "cut7", "last", "more", "type"}
Subs == {"bnb", "sasearch", "lars", "cd"}
Faults == {"none", "nofile", "nocsv", "ragged", "empty", "headeronly", "targethigh", "targetlow",
           "flag", "badnumber", "badcutoff", "outdir", "outisdir"}

Requests ==
       [op : {"fit"}, rows : 1..4, cols : 1..2, n : 1..5]
  \cup [op : {"rss"}, rows : 1..3, cols : 1..3, k : 1..4, n : 1..4]
  \cup [op : {"predict"}, rows : 1..2, cols : 1..4, k : 1..5]
  \cup [op : {"weighted"}, a : 0..4, b : 0..4]
  \cup [op : {"mul"}, rows : 1..2, cols : 1..4, n : 0..5]
  \cup [op : {"node"}, a : 0..4, b : 0..4]
  \cup [op : {"design"}, p : 1..4, sel : 0..4]
  \cup [op : {"search"}, cols : 1..5, root : 0..6]
  \cup [op : {"anneal"}, rows : 5..8, n : 5..8]
  \cup [op : {"name"}, cols : 1..4, t : 0..4, i : 0..5]
  \cup [op : {"subset"}, cols : 1..3, i : -1..4, j : -1..4]
  \cup [op : {"constant"}, cols : 2..4, i : 0..4]
  \cup [op : {"unnorm"}, cols : 2..4, bias : BOOLEAN, i : 0..3]
  \cup [op : {"csv"}, head : Heads, rows : Rows, t : -4..3]
  \cup [op : {"quote"}, where : {"none", "bare", "open"}]
  \cup [op : {"decode"}, kind : {"node", "list", "data", "path"}, damage : Damages]
  \cup [op : {"decode"}, kind : {"node", "list"}, damage : {"index"}]
  \cup [op : {"decode"}, kind : {"data", "path"}, damage : {"dims"}]
  \cup [op : {"file"}, kind : {"path", "csv"}, there : BOOLEAN]
  \cup [op : {"cov"}, diff : {"same", "copy", "entry", "row", "column"}]
  \cup [op : {"cli"}, sub : Subs, fault : Faults]
  \cup [op : {"cli"}, sub : {"lars", "cd"}, fault : {"type", "constant"}]
  \cup [op : {"cli"}, sub : {"cd"}, fault : {"cov"}]
  \cup [op : {"cli"}, sub : {"bnb"}, fault : {"few"}]
  \cup [op : {"cli"}, sub : {"none"}, fault : {"command", "rootflag"}]

Consistent(q) ==
  CASE q.op = "fit" -> q.rows = q.n
    [] q.op = "rss" -> q.cols = q.k /\ q.rows = q.n
    [] q.op = "predict" -> q.cols = q.k
    [] q.op = "weighted" -> q.a = q.b
    [] q.op = "mul" -> q.cols = q.n
    [] q.op = "node" -> q.a = q.b
    [] q.op = "design" -> q.sel > 0                       \* (at least one feature)
    [] q.op = "search" -> q.cols >= 3 /\ q.root \in {0, q.cols}
    [] q.op = "anneal" -> q.rows = q.n
    [] q.op = "name" -> q.i <= q.cols                     \* (columns 0..cols, target included)
    [] q.op = "subset" -> q.i \in 0..(q.cols - 1) /\ q.j \in 0..(q.cols - 1)
    [] q.op = "constant" -> q.i \in {0, q.cols}           \* (constant column i; cols: none)
    [] q.op = "unnorm" -> ~(q.bias /\ q.i = 0)            \* (the constant column has no scale)
    [] q.op = "csv" -> q.rows # <<>> /\ (\A i \in 1..Len(q.rows) : q.rows[i] = q.head) /\ -q.head <= q.t /\ q.t < q.head
    [] q.op = "quote" -> q.where = "none"
    [] q.op = "decode" -> q.damage = "none"
    [] q.op = "file" -> q.there
    [] q.op = "cov" -> q.diff \in {"same", "copy"}
    [] q.op = "cli" -> q.fault = "none"

(* a request without a meaning of its own *)
Senseless(q) == \/ q.op = "design" /\ q.sel > q.p
                \/ q.op = "name" /\ (q.t > q.cols \/ (q.i = q.t))
                \/ q.op = "constant" /\ q.i > q.cols
                \/ q.op = "unnorm" /\ q.i >= q.cols
                \/ q.op = "cli" /\ q.fault = "badcutoff" /\ q.sub = "sasearch"

(* every kind of request occurs both ways *)
ASSUME \A o \in {"fit", "rss", "predict", "weighted", "mul", "node", "design", "search", "anneal", "name", "subset",
                 "constant", "unnorm", "csv", "quote", "decode", "file", "cov", "cli"} :
         /\ \E q \in Requests : q.op = o /\ ~Senseless(q) /\ Consistent(q)
         /\ \E q \in Requests : q.op = o /\ ~Senseless(q) /\ ~Consistent(q)

(***************************************************************************)
(* A client that makes requests one after the other: state is what it      *)
(* keeps on its disk and in memory; only an answered request may change it.*)
(***************************************************************************)
VARIABLES asked, answered
Init == asked \in {q \in Requests : ~Senseless(q)} /\ answered = Consistent(asked)
Next == FALSE /\ UNCHANGED <<asked, answered>>
Spec == Init /\ [][Next]_<<asked, answered>>
Gen == PrintT("GEN " \o ToJson(asked))
===============================================================================
