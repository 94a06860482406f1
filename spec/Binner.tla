------------------------------- MODULE Binner --------------------------------
(* Bins over a range: inserting numbers, and finding the bin of a rank. Numbers *)
(* are integers in some unit; bin b (from 0) of K is [Lo + b w, Lo + (b+1) w)    *)
(* with w = (Hi - Lo) / K, the first and last bin extend to infinity.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CeilDiv(a, b) == -((-a) \div b)
BinOf(x, lo, hi, k) == IF x < lo THEN 0 ELSE IF x >= hi THEN k - 1 ELSE ((x - lo) * k) \div (hi - lo)
\* x lies exactly between two bins
OnBoundary(x, lo, hi, k) == x > lo /\ x < hi /\ ((x - lo) * k) % (hi - lo) = 0
\* the limits of the bins are numbers without rounding when the width is
RECURSIVE Odd(_)
Odd(n) == IF n % 2 = 0 THEN Odd(n \div 2) ELSE n
ExactWidth(lo, hi, k) == (hi - lo) % Odd(k) = 0

\* w[b]: weight of bin b - 1
Upto(w, b) == FoldSeq(+, 0, SubSeq(w, 1, b))
Total(w) == Upto(w, Len(w))
RankBin(w, rank) ==
    LET above == {b \in 1 .. Len(w) : Upto(w, b) > rank}
    IN IF above = {} THEN Len(w) - 1 ELSE Min(above) - 1
\* what is accumulated before and with the bin of the rank
RankAccum(w, rank) == LET b == RankBin(w, rank) IN <<Upto(w, b), Upto(w, b + 1)>>
==============================================================================
