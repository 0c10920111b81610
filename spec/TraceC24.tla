------------------------------- MODULE TraceC24 -------------------------------
(***************************************************************************)
(* Expansions. The first row of the data holds pairwise different primes,  *)
(* so different monomials have different columns.                          *)
(***************************************************************************)
EXTENDS Monomials, TraceBase

BlockCols(x, b) ==
    IF b.k = "seq" THEN {ColumnOf(x, f, SeqRange(b.cols)) : f \in Mono(SeqRange(b.cols), b.d)}
    ELSE LET S == 0..(Len(b.pw) - 1) IN {ColumnOf(x, [j \in S |-> b.pw[j + 1]], S)}
P(r) == Len(r.x[1])
Orig(r) == [j \in 1..P(r) |-> [i \in 1..Len(r.x) |-> r.x[i][j]]]
(* block q occupies the columns Start(q)+1 .. Start(q+1) *)
RECURSIVE Start(_, _, _)
Start(r, B, q) == IF q = 1 THEN P(r) ELSE Start(r, B, q - 1) + Cardinality(B[q - 1])
LazyClauses(r) ==
    LET B == [q \in 1..Len(r.blocks) |-> BlockCols(r.x, r.blocks[q])]
        total == Start(r, B, Len(r.blocks) + 1) IN
    Clause(r.counts = [q \in 1..Len(r.blocks) |-> Start(r, B, q + 1)], "wrong-number-of-columns")
    \cup (IF Len(r.cols) # total THEN {"wrong-number-of-columns"}
          ELSE Clause(SubSeq(r.cols, 1, P(r)) = Orig(r), "original-columns-changed")
               \cup Clause(\A q \in 1..Len(B) : SeqRange(SubSeq(r.cols, Start(r, B, q) + 1, Start(r, B, q + 1))) = B[q], "wrong-monomials"))
    \cup Clause(r.full = r.cols, "full-matrix-differs-from-columns")
ProductClauses(r) ==
    Clause(Len(r.tuples) = Pow(Len(r.vals), r.rep), "wrong-number-of-tuples")
    \cup Clause(SeqRange(r.tuples) = [1..r.rep -> SeqRange(r.vals)], "wrong-tuples")
    \cup Clause(r.clobbered = 0, "tuples-share-storage")
    \cup Clause(r.kept, "values-changed")
Clauses(r) == IF r.outcome # "ok" THEN {r.outcome}
              ELSE IF r.k = "lazy" THEN LazyClauses(r) ELSE ProductClauses(r)
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
