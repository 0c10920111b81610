------------------------------- MODULE TraceC08 -------------------------------
(***************************************************************************)
(* Codecs: a value (a function from field names to exact texts) is encoded *)
(* and decoded; the decoded value is the same function. Equality: two      *)
(* values that differ in one field by d tolerances are equal iff d < 1.    *)
(* A history (Codec.tla) inserts into two lists and passes them through    *)
(* the codec; a decoded list goes on with the life of its source.          *)
(***************************************************************************)
EXTENDS HighscoreContract, TraceBase

(* the lists as sequences of node numbers in r.obs[i].l[1..2]; the state of the ideal: capacities and lives after i operations *)
RECURSIVE Life(_, _)
Count(r, i) == Cardinality({j \in 1..i : r.ops[j].k = "ins"})
Life(r, i) == IF i = 0 THEN [cap |-> r.cap, life |-> <<<<>>, <<>>>>]
              ELSE LET v == Life(r, i - 1)
                       o == r.ops[i] IN
                   IF o.k = "ins" THEN [v EXCEPT !.life[o.r] = Append(@, Count(r, i))]
                   ELSE [cap |-> [v.cap EXCEPT ![3 - o.r] = v.cap[o.r]], life |-> [v.life EXCEPT ![3 - o.r] = v.life[o.r]]]
Score(r, n) == r.ops[CHOOSE j \in 1..Len(r.ops) : r.ops[j].k = "ins" /\ Count(r, j) = n].s
Before(r, i) == IF i = 1 THEN <<<<>>, <<>>>> ELSE r.obs[i - 1].l
PosIn(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
OpClauses(r, i) ==
    LET o == r.ops[i]
        q == r.obs[i]
        b == Before(r, i)
        v == Life(r, i)
        d == IF o.k = "ins" THEN o.r ELSE 3 - o.r
        h == v.life[d] IN
    Clause(q.cap = v.cap, "capacity-differs")
    \cup Clause(q.l[3 - d] = b[3 - d], "another-list-changed")
    \cup Clause(q.same, "contents-of-nodes-differ")
    \cup (IF v.cap[2] = 0 THEN {}
          ELSE Clause(q.eq = (v.cap[1] = v.cap[2] /\ q.l[1] = q.l[2]), "equality-wrong-about-lists"))
    \cup IF o.k = "cp" THEN Clause(q.l[d] = b[o.r], "decoded-list-differs")
         ELSE Clause(SeqRange(q.l[d]) \subseteq SeqRange(b[d]) \cup {Count(r, i)}, "evicted-node-returned")
              \cup ListClauses(v.cap[d], [j \in 1..Len(h) |-> Score(r, h[j])], Len(h), [j \in 1..Len(q.l[d]) |-> PosIn(h, q.l[d][j])])
Clauses(r) ==
    IF r.outcome # "ok" THEN {r.outcome}
    ELSE CASE r.k = "trip" ->
              {x \in DOMAIN r.before : x \notin DOMAIN r.after \/ r.after[x] # r.before[x]}
              \cup Clause(r.eq, "equality-denies-round-trip") \cup Clause(r.kept, "receiver-or-source-changed")
           [] r.k = "eq" -> Clause(r.eq = (r.d = 0) /\ r.eqrev = r.eq, "equality-wrong-about-" \o r.field)
           [] r.k = "hist" -> UNION {OpClauses(r, i) : i \in 1..Len(r.ops)}
Spec == TInit /\ [][TStep(Len(Cases[c].runs), Clauses(Cases[c].runs[l + 1]))]_tvars
===============================================================================
