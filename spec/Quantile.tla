------------------------------ MODULE Quantile -------------------------------
(* Cutting an ordered list of values into M + 1 parts of about the same weight. *)
(* w[v] is the weight of value v in 1 .. Len(w). The i-th cut is behind the      *)
(* first value at which the accumulated weight exceeds i/(M+1) of the total; as   *)
(* the implementation accumulates rounded numbers, within a tolerance tol.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

RECURSIVE Prefix(_, _)
Prefix(w, acc) == IF Len(w) = 0 THEN acc ELSE Prefix(Tail(w), Append(acc, acc[Len(acc)] + Head(w)))
Cums(w) == Prefix(w, <<0>>)      \* Cums(w)[v + 1]: weight of the values 1 .. v

\* values behind which the i-th of m cuts may be
Behind(cum, i, m, tol) ==
    LET n == Len(cum) - 1 IN
    {v \in 1 .. n : /\ cum[v + 1] * (m + 1) + tol >= i * cum[n + 1]
                    /\ cum[v] * (m + 1) - tol <= i * cum[n + 1]}

\* the same for the whole rows: the rank of a cut is i/(M+1) of the number of rows, rounded, at least 1;
\* the cut is behind the value of the row with that rank
RankOf(i, m, n) == {k \in ((i * n) \div (m + 1)) .. ((i * n) \div (m + 1) + 1) :
                      /\ 2 * k * (m + 1) - (m + 1) <= 2 * i * n /\ 2 * i * n <= 2 * k * (m + 1) + (m + 1)}
BehindRow(cum, i, m) ==
    LET n == Len(cum) - 1 IN
    {v \in 1 .. n : \E k \in RankOf(i, m, cum[n + 1]) : LET r == IF k = 0 THEN 1 ELSE k IN cum[v] < r /\ r <= cum[v + 1]}

\* choices: sequence of sets of values. What is cut in any case, and what may be cut.
Must(choices) == UNION {choices[i] : i \in {j \in DOMAIN choices : Cardinality(choices[j]) = 1}}
May(choices) == UNION {choices[i] : i \in DOMAIN choices}
==============================================================================
