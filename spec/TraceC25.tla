------------------------------- MODULE TraceC25 -------------------------------
(* Representations of feature sets: after every operation, and under conversions. *)
EXTENDS TraceBase, SequencesExt
M == INSTANCE ModelOps WITH Sizes <- {}, MaxOps <- 0, CellBits <- 8, n <- 0, S <- {}, cells <- <<>>, ops <- <<>>

Asc(T) == SetToSortSeq(T, <)
OneClauses(n, T, o) ==
    LET q == Asc(T) IN
    Clause(o.get = q, "get-differs") \cup Clause(o.bools = q, "bools-differ") \cup Clause(o.len = n, "wrong-length")
    \cup Clause(o.num = Cardinality(T), "wrong-count") \cup Clause(o.sel = q, "indices-differ")
RECURSIVE Walk(_, _, _)
Walk(r, T, k) == LET cl == OneClauses(r.n, T, r.obs[k]) IN
    IF cl # {} \/ k > Len(r.ops) THEN cl
    ELSE Walk(r, IF r.ops[k][1] = 1 THEN M!DoSet(T, r.ops[k][2]) ELSE M!DoFlip(T, r.ops[k][2]), k + 1)

ConvClauses(r) ==
    LET T == SeqRange(r.s)
        q == Asc(T)
        m == Len(q)
        dec(k) == {x \in T : x < k}
        und(k) == k..(r.n - 1)
        cell(i, j) == 1000 * i + j
    IN  Clause(r.fromsel = <<q, <<r.n>>>>, "selected-to-model")
        \cup Clause(r.sel = q, "selected-features") \cup Clause(r.num = m, "number-of-features")
        \cup Clause(r.nodesel = q /\ r.nodelen = m, "node-to-sparse") \cup Clause(r.itemsel = q /\ r.itemlen = m, "sa-item")
        \cup Clause(r.full = [i \in 1..r.n |-> IF (i - 1) \in T THEN 7 * Cardinality(dec(i - 1)) + 1 ELSE 0], "full-coefficients")
        \cup Clause(r.sparse = [i \in 1..m |-> 7 * (i - 1) + 1], "sparse-coefficients")
        \cup Clause(r.gcs = [k \in 1..(r.n + 1) |-> Asc(dec(k - 1) \cup und(k - 1))], "greatest-common-model")
        \cup Clause(r.lcs = [k \in 1..(r.n + 1) |-> Asc(dec(k - 1))], "least-common-model")
        \cup Clause(r.design = IF m = 0 THEN <<>> ELSE [i \in 1..r.rows |-> [j \in 1..m |-> cell(i, q[j])]], "design-matrix")
        \cup Clause(r.view = [i \in 1..r.rows |-> [j \in 1..Len(r.colsidx) |-> cell(i, r.colsidx[j])]], "column-view")
        \cup Clause(r.viewt = [j \in 1..Len(r.colsidx) |-> [i \in 1..r.rows |-> cell(i, r.colsidx[j])]], "transposed-column-view")
        \cup Clause(r.vlen = Len(r.rowsidx) /\ r.vdims = <<r.vlen, 1>>, "vector-view-size")
        \cup Clause(r.vec = [i \in 1..Len(r.rowsidx) |-> cell(r.rowsidx[i] + 1, r.colsidx[1])] /\ r.vect = r.vec, "vector-view")
        \cup LET sv == <<3, 1, 4, 1, 5>>
                 z == r.slice[1] IN
             Clause(z \in 1..5 /\ r.slice = <<z, z, 1>> \o [i \in 1..(3 * z) |-> sv[(i - 1) \div 3 + 1]], "slice-vector")
        \cup Clause(r.child0 = q, "child-changes-model") \cup Clause(r.child1 = Asc(M!DoFlip(T, r.lvl)), "flipped-child-wrong")
        \cup Clause(r.childlvl = <<r.lvl + 1, r.lvl + 1, r.n, r.n>> /\ r.wasflip, "child-level")
        \cup Clause(r.indep, "representations-share-storage")
Clauses(r) == IF r.outcome # "ok" THEN {r.outcome}
              ELSE IF r.k = "ops" THEN Walk(r, {}, 1) ELSE ConvClauses(r)
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
