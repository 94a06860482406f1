------------------------------- MODULE MCData --------------------------------
(* Two ways to load a table: row by row, keeping the limits, cardinalities and     *)
(* types up to date (a CSV file), and column by column, in any order and some      *)
(* columns more than once. They give the same description, and none of it depends  *)
(* on what was there before.                                                       *)
EXTENDS Data
CONSTANTS Cols, Rows, MaxB, Vals, MaxSets
VARIABLES table, cats, r, c, run, failed, mem, nsets
vars == <<table, cats, r, c, run, failed, mem, nsets>>

MCVals == {[k |-> 0, c |-> 0], [k |-> 2, c |-> 1], [k |-> 6, c |-> 3], [k |-> 3, c |-> -1], [k |-> -2, c |-> -1]}
Empty == [lo |-> 1000, hi |-> -1000, card |-> 0]
Init ==
    /\ table \in [1 .. Cols -> [1 .. Rows -> Vals]]
    /\ cats \in [1 .. Cols -> BOOLEAN]
    /\ r = 1 /\ c = 1 /\ run = [f \in 1 .. Cols |-> Empty] /\ failed = FALSE
    /\ mem = [f \in 1 .. Cols |-> Untouched(Rows)] /\ nsets = 0

\* one cell of the file
Cell ==
    /\ r <= Rows /\ ~failed
    /\ LET v == table[c][r] IN
       IF cats[c] /\ v.c < 0 THEN failed' = TRUE /\ UNCHANGED <<run, r, c>>
       ELSE /\ run' = [run EXCEPT ![c] = [lo |-> IF v.k < @.lo THEN v.k ELSE @.lo, hi |-> IF v.k > @.hi THEN v.k ELSE @.hi,
                                          card |-> IF cats[c] /\ v.c + 1 > @.card THEN v.c + 1 ELSE @.card]]
            /\ IF c = Cols THEN c' = 1 /\ r' = r + 1 ELSE c' = c + 1 /\ r' = r
            /\ UNCHANGED failed
    /\ UNCHANGED <<table, cats, mem, nsets>>
\* one column in memory: the right one, or first another one
SetCol(f, g, cat) ==
    /\ nsets < MaxSets
    /\ nsets' = nsets + 1
    /\ mem' = IF Settable(table[g], cat) THEN [mem EXCEPT ![f] = Column(table[g], cat, MaxB)] ELSE mem
    /\ UNCHANGED <<table, cats, r, c, run, failed>>
Next == Cell \/ (\E f, g \in 1 .. Cols : \E cat \in BOOLEAN : r = 1 /\ c = 1 /\ SetCol(f, g, cat))
Spec == Init /\ [][Next]_vars

Done == r = Rows + 1
RunType(f) == IF ~cats[f] THEN "num" ELSE IF run[f].card > MaxB THEN "high" ELSE "low"
RowByRow == Done => \A f \in 1 .. Cols : [lo |-> run[f].lo, hi |-> run[f].hi, card |-> run[f].card, type |-> RunType(f)] = Describe(table[f], cats[f], MaxB)
Bad(f, j) == cats[f] /\ table[f][j].c < 0
FailsOnlyOnBad == /\ failed => Bad(c, r)
                  /\ \A f \in 1 .. Cols : \A j \in 1 .. Rows : (j < r \/ (j = r /\ f < c)) => ~Bad(f, j)
\* what is described is what is there
Described == \A f \in 1 .. Cols : mem[f] = Untouched(Rows) \/ \E g \in 1 .. Cols : \E cat \in BOOLEAN : mem[f] = Column(table[g], cat, MaxB)
==============================================================================
