------------------------------ MODULE LassoTraces ------------------------------
(* Recorded solutions and paths of problems that LassoExact solves. Numbers are in units of 1e-4. *)
EXTENDS LassoExact
ExactTol == 4
FeatOf(A) == [k \in 1..Cardinality(A) |-> Asc(A)[k] - 1]

(* a least angle path down to lmin *)
ExactNode(pr, k, o) ==
    LET sg == Segment(pr, k.A, k.s)
        a == Asc(k.A) IN
    Clause(Near4(o.l, k.lam[1], k.lam[2], ExactTol), "not-the-knot")
    \cup (IF o.sel # FeatOf(k.A) \/ Len(o.b) # Len(a) THEN {"not-the-selection-of-the-knot"}
          ELSE Clause(\A i \in 1..Len(a) : Near4(o.b[i], CoefAt(sg, a[i], k.lam), sg.D * k.lam[2], ExactTol), "not-the-coefficients-of-the-knot"))
ExactLars(f) ==
    LET pr == Problem(f.x, f.y)
        s0 == [j \in 1..Len(f.x) |-> 0] IN
    IF f.skip \/ Tied(pr, {}, s0, <<1, 1>>) THEN {}
    ELSE IF f.outcome # "ok" THEN {f.outcome}
    ELSE LET all == Knots(pr)
             K == SelectSeq(all, LAMBDA k : Less(f.lmin, k.lam)) IN
         IF \E i \in 1..Len(all) : Same(all[i].lam, f.lmin) THEN {}
         ELSE IF Len(f.obs) # Len(K) THEN {"wrong-number-of-knots"}
         ELSE UNION {ExactNode(pr, K[i], f.obs[i]) : i \in 1..Len(K)}

(* solutions for single regularisations; b holds the coefficients of all features *)
ExactSolution(pr, lam, b) ==
    LET s == Solution(pr, lam)
        sg == Segment(pr, Support(s), s) IN
    Len(b) = Len(pr.b) /\ \A i \in 1..Len(b) : Near4(b[i], CoefAt(sg, i, lam), sg.D * lam[2], ExactTol)
ExactCd(f) ==
    IF f.outcome # "ok" THEN {f.outcome}
    ELSE LET pr == Problem(f.x, f.y) IN
         UNION {Clause(ExactSolution(pr, f.obs[i].lam, f.obs[i].b), "not-the-exact-solution") : i \in 1..Len(f.obs)}

(* a path of coordinate descent for the ascending regularisations f.lams (quarters) *)
Filled(p, sel, b) == [j \in 1..p |-> IF \E k \in 1..Len(sel) : sel[k] = j - 1 THEN b[CHOOSE k \in 1..Len(sel) : sel[k] = j - 1] ELSE 0]
ExactCdPath(f) ==
    IF f.outcome # "ok" THEN {f.outcome}
    ELSE LET pr == Problem(f.x, f.y)
             n == Len(f.lams)
             full(i) == Support(Solution(pr, <<f.lams[i], 4>>)) # {}
             top == IF \E i \in 1..n : full(i) THEN CHOOSE i \in 1..n : full(i) /\ \A j \in (i + 1)..n : ~full(j) ELSE n IN
         IF [k \in 1..Len(f.obs) |-> f.obs[k].i] # [k \in 1..top |-> top - k + 1] THEN {"wrong-regularisations"}
         ELSE UNION {LET o == f.obs[k] IN
                     IF Len(o.sel) # Len(o.b) \/ ~StrictAsc(o.sel) THEN {"selection-not-ascending"}
                     ELSE Clause(ExactSolution(pr, <<f.lams[o.i], 4>>, Filled(Len(f.x), o.sel, o.b)), "not-the-exact-solution") : k \in 1..Len(f.obs)}
===============================================================================
