-------------------------------- MODULE Bits --------------------------------
(* Sets of example positions as the learner stores them: a set of naturals,  *)
(* or, compressed, a set of bit positions in a sequence of words of which    *)
(* `idx` gives the original position; and numbers per example (bit slices).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

WordBits == 32
BlockBits == 256

Blocks(n) == (n + BlockBits - 1) \div BlockBits

CountAnd(a, b) == Cardinality(a \cap b)
SumAnd(vals, a, b) == FoldFunctionOnSet(+, 0, vals, {p + 1 : p \in a \cap b})

(* a compressed set: bit p of it is example Orig(idx, p)                      *)
Orig(idx, p) == WordBits * idx[(p \div WordBits) + 1] + (p % WordBits)
Decompress(idx, a) == {Orig(idx, p) : p \in a}
CountAndC(idx, a, m) == Cardinality({p \in a : Orig(idx, p) \in m})
SumAndC(vals, idx, a, m) == FoldFunctionOnSet(+, 0, vals, {p + 1 : p \in {q \in a : Orig(idx, q) \in m}})

(* sets as ascending sequences of runs <<from, to>> (to excluded), with gaps between them             *)
Lower(x, y) == IF x < y THEN x ELSE y
Upper(x, y) == IF x < y THEN y ELSE x
NonEmpty(seq) == SelectSeq(seq, LAMBDA x : x[1] < x[2])
RunsSize(X) == FoldSeq(LAMBDA x, s : s + (x[2] - x[1]), 0, X)
RunsWithin(X, lo, hi) == NonEmpty([i \in DOMAIN X |-> <<Upper(X[i][1], lo), Lower(X[i][2], hi)>>])
RunsAnd(X, Y) == FlattenSeq([i \in DOMAIN X |-> RunsWithin(Y, X[i][1], X[i][2])])
RunsNot(X, n) == NonEmpty([i \in 1 .. Len(X) + 1 |-> <<IF i = 1 THEN 0 ELSE X[i - 1][2], IF i > Len(X) THEN n ELSE X[i][1]>>])
RunsOr(X, Y, n) == RunsNot(RunsAnd(RunsNot(X, n), RunsNot(Y, n)), n)
\* slots: the runs of words a compressed set has; the words of the runs before run i
Before(slots, i) == FoldSeq(LAMBDA x, s : s + (x[2] - x[1]), 0, SubSeq(slots, 1, i - 1))
\* the examples of a compressed set
RunsOrig(slots, X) ==
    FlattenSeq([i \in DOMAIN slots |->
        LET from == WordBits * Before(slots, i)
            by   == (WordBits * slots[i][1]) - from
            in   == RunsWithin(X, from, from + (WordBits * (slots[i][2] - slots[i][1])))
        IN [k \in DOMAIN in |-> <<in[k][1] + by, in[k][2] + by>>]])
\* and back: the bits of a compressed set that are the examples of X
RunsSlots(slots, X) ==
    FlattenSeq([i \in DOMAIN slots |->
        LET by == (WordBits * slots[i][1]) - (WordBits * Before(slots, i))
            in == RunsWithin(X, WordBits * slots[i][1], WordBits * slots[i][2])
        IN [k \in DOMAIN in |-> <<in[k][1] - by, in[k][2] - by>>]])
\* steps: <<end, value>>, ascending
RunsSum(steps, X) ==
    FoldSeq(+, 0, [i \in DOMAIN steps |-> steps[i][2] * RunsSize(RunsWithin(X, IF i = 1 THEN 0 ELSE steps[i - 1][1], steps[i][1]))])

(* levels of a discretised number *)
MaxLevel(w) == (2 ^ w) - 1
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Dist(x, y) == IF x < y THEN y - x ELSE x - y
(* v is (one of) the nearest of the equally spaced levels between lo and hi   *)
IsNearest(v, x, lo, hi, w) ==
    /\ v \in 0 .. MaxLevel(w)
    /\ 2 * Dist(v * (hi - lo), (Clamp(x, lo, hi) - lo) * MaxLevel(w)) <= hi - lo
=============================================================================
