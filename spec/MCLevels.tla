------------------------------ MODULE MCLevels -------------------------------
(* A slice of N numbers, each stored as the nearest of 2^W levels between Lo and *)
(* Hi. Why sums of levels can be used for sums of numbers: whatever is stored in  *)
(* whatever order, the sum of levels of any set of elements, converted back, is   *)
(* the sum of what the elements read back as, and is off by at most half a step   *)
(* per element from the sum of the numbers (limited to the bounds) stored.        *)
EXTENDS Bits
CONSTANTS N, W, BoundsSet, Margin
VARIABLES lo, hi, want, level
vars == <<lo, hi, want, level>>

MCBounds == {<<0, 6>>, <<-3, 3>>, <<-5, 2>>, <<1, 2>>}
M == MaxLevel(W)
Xs == (lo - Margin) .. (hi + Margin)
Init == \E b \in BoundsSet : /\ lo = b[1] /\ hi = b[2]
                             /\ want = [k \in 1 .. N |-> b[1]] /\ level = [k \in 1 .. N |-> 0]
Store(k, x, v) == /\ IsNearest(v, x, lo, hi, W)
                  /\ want' = [want EXCEPT ![k] = Clamp(x, lo, hi)]
                  /\ level' = [level EXCEPT ![k] = v]
                  /\ UNCHANGED <<lo, hi>>
Next == \E k \in 1 .. N : \E x \in Xs : \E v \in 0 .. M : Store(k, x, v)
Spec == Init /\ [][Next]_vars

\* what level v reads back as, times M
Value(v) == lo * M + v * (hi - lo)
LinProj(c, s) == c * lo * M + s * (hi - lo)
Sets == SUBSET (1 .. N)
SumOf(f, A) == FoldFunctionOnSet(+, 0, f, A)

Defined == \A x \in Xs : \E v \in 0 .. M : IsNearest(v, x, lo, hi, W)
Unique == \A x \in Xs : \A u, v \in 0 .. M : IsNearest(u, x, lo, hi, W) /\ IsNearest(v, x, lo, hi, W) => u = v \/ 2 * Dist(Value(u), Clamp(x, lo, hi) * M) = hi - lo
BoundsExact == /\ \A v \in 0 .. M : IsNearest(v, lo, lo, hi, W) => v = 0
               /\ \A v \in 0 .. M : IsNearest(v, hi, lo, hi, W) => v = M
               /\ Value(0) = lo * M /\ Value(M) = hi * M
Monotone == \A x, y \in Xs : x < y => \A u, v \in 0 .. M : IsNearest(u, x, lo, hi, W) /\ IsNearest(v, y, lo, hi, W) => u <= v
Sums == \A A \in Sets :
    /\ LinProj(Cardinality(A), SumOf(level, A)) = SumOf([k \in 1 .. N |-> Value(level[k])], A)
    /\ 2 * Dist(LinProj(Cardinality(A), SumOf(level, A)), M * SumOf(want, A)) <= Cardinality(A) * (hi - lo)
==============================================================================
