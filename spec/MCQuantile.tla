----------------------------- MODULE MCQuantile ------------------------------
(* A single pass over the values that makes the cuts, for every list of weights. *)
EXTENDS Quantile
CONSTANTS MaxValues, MaxWeight, MaxCuts
VARIABLES w, m, v, acc, i, cuts
vars == <<w, m, v, acc, i, cuts>>
Tot == FoldSeq(+, 0, w)
Init == /\ w \in UNION {[1 .. n -> 0 .. MaxWeight] : n \in 1 .. MaxValues} /\ m \in 1 .. MaxCuts
        /\ FoldSeq(+, 0, w) > 0
        /\ v = 0 /\ acc = 0 /\ i = 1 /\ cuts = << >>
Walk == /\ i <= m
        /\ IF acc * (m + 1) <= i * Tot /\ v < Len(w)
           THEN v' = v + 1 /\ acc' = acc + w[v + 1] /\ UNCHANGED <<i, cuts>>
           ELSE cuts' = Append(cuts, v) /\ i' = i + 1 /\ UNCHANGED <<v, acc>>
        /\ UNCHANGED <<w, m>>
Next == Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == i = m + 1
Finishes == <>Done

C == Cums(w)
\* every cut is one that the specification allows, without tolerance too (a tie goes to the next value of weight)
Allowed == \A k \in DOMAIN cuts : cuts[k] \in Behind(C, k, m, 0)
Ordered == \A k \in DOMAIN cuts : k > 1 => cuts[k - 1] <= cuts[k]
\* what quantiles are for: without its last value, a part between two cuts weighs at most 1/(M+1) of the total
Balanced == Done => \A k \in 1 .. (m + 1) :
    LET a == IF k = 1 THEN 0 ELSE cuts[k - 1]
        b == IF k = m + 1 THEN Len(w) ELSE cuts[k]
        inner == {x \in a + 1 .. b : x < b \/ k = m + 1}
    IN (m + 1) * FoldSet(LAMBDA x, s : s + w[x], 0, inner) <= Tot
\* cuts by rows: with weights as numbers of rows
RowsDefined == \A k \in 1 .. m : LET S == BehindRow(C, k, m) IN S # {} /\ \A x \in S : w[x] > 0
RowsOrdered == \A k \in 1 .. (m - 1) : Max(BehindRow(C, k, m)) <= Min(BehindRow(C, k + 1, m)) \/ Cardinality(RankOf(k, m, Tot)) > 1 \/ Cardinality(RankOf(k + 1, m, Tot)) > 1
MustMay == LET ch == [k \in 1 .. m |-> BehindRow(C, k, m)] IN Must(ch) \subseteq May(ch) /\ Cardinality(Must(ch)) <= m
==============================================================================
