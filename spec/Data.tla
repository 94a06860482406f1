-------------------------------- MODULE Data ---------------------------------
(* What a data set is: columns of numbers, the last one is the target. A cell is  *)
(* [k |-> its place in the order of numbers, c |-> its category, or -1 if it is    *)
(* not a natural number]. Everything else is derived from the columns.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Keys(col) == {col[j].k : j \in DOMAIN col}
AllCategories(col) == \A j \in DOMAIN col : col[j].c >= 0
Card(col, cat) == IF cat THEN 1 + Max({col[j].c : j \in DOMAIN col}) ELSE 0
TypeOf(col, cat, maxb) == IF ~cat THEN "num" ELSE IF Card(col, cat) > maxb THEN "high" ELSE "low"
Describe(col, cat, maxb) == [lo |-> Min(Keys(col)), hi |-> Max(Keys(col)), card |-> Card(col, cat), type |-> TypeOf(col, cat, maxb)]

\* a column nobody has set
Untouched(n) == [vals |-> [j \in 1 .. n |-> [k |-> 0, c |-> 0]], d |-> [lo |-> 0, hi |-> 0, card |-> 0, type |-> "num"]]
Column(vals, cat, maxb) == [vals |-> vals, d |-> Describe(vals, cat, maxb)]
\* setting a column succeeds
Settable(vals, cat) == ~cat \/ AllCategories(vals)
==============================================================================
