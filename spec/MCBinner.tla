------------------------------ MODULE MCBinner -------------------------------
(* Values are inserted one by one, then ranks are looked up in ascending order   *)
(* by one pass over the bins. Every result is the bin of the value that has that  *)
(* rank among all inserted values.                                              *)
EXTENDS Binner
CONSTANTS K, Lo, Hi, Margin, MaxIns
VARIABLES vals, bins, phase, last, acc, prev, idx, got
vars == <<vals, bins, phase, last, acc, prev, idx, got>>

Xs == (Lo - Margin) .. (Hi + Margin)
Init == vals = << >> /\ bins = [b \in 1 .. K |-> 0] /\ phase = "insert" /\ last = 0 /\ acc = 0 /\ prev = 0 /\ idx = 0 /\ got = -1

Insert(x) ==
    /\ phase = "insert" /\ Len(vals) < MaxIns
    /\ \A k \in DOMAIN vals : vals[k] <= x          \* the order does not matter: one order for each bag
    /\ vals' = Append(vals, x)
    /\ bins' = [bins EXCEPT ![BinOf(x, Lo, Hi, K) + 1] = @ + 1]
    /\ UNCHANGED <<phase, last, acc, prev, idx, got>>
Look(r) ==
    /\ phase \in {"insert", "found"}
    /\ r >= last /\ r <= Len(vals)
    /\ phase' = "walk" /\ last' = r
    /\ UNCHANGED <<vals, bins, acc, prev, idx, got>>
Walk ==
    /\ phase = "walk"
    /\ IF acc <= last /\ idx < K
       THEN /\ idx' = idx + 1 /\ prev' = acc /\ acc' = acc + bins[idx + 1]
            /\ UNCHANGED <<phase, got>>
       ELSE phase' = "found" /\ got' = idx - 1 /\ UNCHANGED <<idx, prev, acc>>
    /\ UNCHANGED <<vals, bins, last>>
Next == (\E x \in Xs : Insert(x)) \/ (\E r \in 0 .. MaxIns : Look(r)) \/ Walk
Spec == Init /\ [][Next]_vars

\* the bins are a partition of the numbers into intervals, in order
Covers == \A x \in Xs : /\ BinOf(x, Lo, Hi, K) \in 0 .. K - 1
                        /\ (x + 1 \in Xs => BinOf(x, Lo, Hi, K) <= BinOf(x + 1, Lo, Hi, K))
                        /\ (x \in Lo .. Hi - 1 => LET b == BinOf(x, Lo, Hi, K) IN /\ Lo * K + b * (Hi - Lo) <= x * K
                                                                                  /\ x * K < Lo * K + (b + 1) * (Hi - Lo))
Counts == \A b \in 1 .. K : bins[b] = Cardinality({k \in DOMAIN vals : BinOf(vals[k], Lo, Hi, K) = b - 1})
Found == phase = "found" =>
    /\ got = RankBin(bins, last)
    /\ <<prev, acc>> = RankAccum(bins, last)
    /\ (last < Len(vals) => got = BinOf(vals[last + 1], Lo, Hi, K))
==============================================================================
