----------------------------- MODULE BnBContract -----------------------------
(***************************************************************************)
(* What a branch-and-bound search over sub-models promises, as operators   *)
(* on the facts of one problem.  The design model (BnB) is checked against *)
(* these operators for every interleaving of its workers; the traces of    *)
(* the real SelectModel are checked against the very same operators.       *)
(*                                                                         *)
(* Facts f:  f.p features, f.n observations, f.pen[k+1] penalty of k       *)
(* features (ascending), f.logr[m+1] fit term of model m (antitone in set  *)
(* inclusion; the clamp value for models that are too large).              *)
(***************************************************************************)
EXTENDS Bits

Models(f) == {m \in 1..(Pow2(f.p) - 1) : PopCount(m) < f.n}
Crit(f, m) == f.pen[PopCount(m) + 1] + f.logr[m + 1]

(* bound of the subtree in which the first k features are decided as in m *)
Lower(f, m, k) == f.pen[PopCount(Lcs(m, k)) + 1] + f.logr[Gcs(m, k, f.p) + 1]

MinCrit(f) == LET S == {Crit(f, m) : m \in Models(f)} IN
              CHOOSE x \in S : \A y \in S : x <= y

(***************************************************************************)
(* The search tree below root r: the node that decides the first k         *)
(* features of m carries the undecided features of r.  Model m # r is      *)
(* evaluated at the level of the last feature in which it differs from r.  *)
(***************************************************************************)
RECURSIVE LastDiff(_, _, _)
LastDiff(m, r, p) == IF p = 0 THEN 0
                     ELSE IF Bit(m, p - 1) # Bit(r, p - 1) THEN p ELSE LastDiff(m, r, p - 1)
LevelOf(f, m, r) == LastDiff(m, r, f.p)

(* a subtree whose smallest model is too large holds no candidate *)
Legal(f, m, k) == PopCount(Lcs(m, k)) < f.n

(* m may only be missing from the explored set if some subtree that contains it was cut, i.e. its bound
   plus the cutoff exceeds the best criterion reached (best only decreases, so the final one decides) *)
MustExplore(f, r, cutoff, best, tol) ==
    {m \in Models(f) : \A k \in 1..LevelOf(f, m, r) : Lower(f, m, k) + cutoff <= best - tol}

(* m may only be explored if none of the subtrees on its path was above the best criterion in the list when the
   first child was created: the scored root and what the list held before the search (prior) *)
MayExplore(f, r, cutoff, prior, tol) ==
    LET S == {Crit(f, m) : m \in (prior \cup {r}) \cap Models(f)} IN
    IF S = {} THEN Models(f)
    ELSE LET top == CHOOSE x \in S : \A y \in S : x <= y IN
         {m \in Models(f) : \A k \in 1..LevelOf(f, m, r) : Lower(f, m, k) + cutoff <= top + tol}

(* clauses on the set E of all models in the list after the search, with final best criterion b *)
ExploreClauses(f, r, cutoff, prior, E, b, tol) ==
    Clause(MustExplore(f, r, cutoff, b, tol) \subseteq E, "lost-within-cutoff")
    \cup Clause(E \ prior \subseteq MayExplore(f, r, cutoff, prior, tol), "explored-beyond-cutoff")
    \cup Clause(r \notin Models(f) \/ r \in E, "root-missing")
    \cup Clause(prior \subseteq E, "earlier-result-lost")

OptimalClauses(f, bestModel, bestScore, tol) ==
    IF bestModel \notin Models(f) THEN {"no-legal-best"}
    ELSE Clause(Abs(-bestScore - MinCrit(f)) <= tol, "score-not-optimal")
         \cup Clause(Crit(f, bestModel) <= MinCrit(f) + tol, "model-not-optimal")

(* the size of the model space and of the subtree of a node on level k *)
Space(f) == Pow2(f.p)
=============================================================================
