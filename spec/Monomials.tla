------------------------------ MODULE Monomials ------------------------------
(* Monomials as functions from columns to exponents, and their values. *)
EXTENDS Bits

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
RECURSIVE ProdF(_, _, _)
ProdF(row, f, S) == IF S = {} THEN 1
                    ELSE LET x == CHOOSE x \in S : TRUE IN Pow(row[x + 1], f[x]) * ProdF(row, f, S \ {x})
(* all monomials in the columns C with total degree between 2 and d *)
Mono(C, d) == {f \in [C -> 0..d] : SumF(f, C) >= 2 /\ SumF(f, C) <= d}
(* the column of the monomial f over the rows x *)
ColumnOf(x, f, C) == [i \in 1..Len(x) |-> ProdF(x[i], f, C)]
==============================================================================
