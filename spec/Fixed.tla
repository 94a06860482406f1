-------------------------------- MODULE Fixed --------------------------------
(* Real numbers as integers, in units of 2^-16.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Tables

S == 65536
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(x, y) == IF x < y THEN x ELSE y
MaxI(x, y) == IF x < y THEN y ELSE x
SignI(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Near(x, y, tol) == AbsI(x - y) <= tol
SumSeq(s) == FoldSeq(+, 0, s)

(* a * b / c for naturals a, b and c > 0, without a product that does not fit   *)
RECURSIVE MD(_, _, _)
MD(a, b, c) == \* a < c
    IF b = 0 THEN <<0, 0>>
    ELSE LET h == MD(a, b \div 2, c)
             r == 2 * h[2] + (IF b % 2 = 1 THEN a ELSE 0)
         IN <<2 * h[1] + (r \div c), r % c>>
MulDivN(a, b, c) == (a \div c) * b + MD(a % c, b, c)[1]
MulDiv(a, b, c) == SignI(a) * SignI(b) * MulDivN(AbsI(a), AbsI(b), c)

Lookup(t, x) == \* x within the table
    LET y == x + 12 * S
        k == (y \div 1024) + 1
    IN t[k] + (((t[k + 1] - t[k]) * (y % 1024)) \div 1024)
Logistic(x) == IF x >= 12 * S THEN 0 ELSE IF x < -(12 * S) THEN S ELSE Lookup(LogisticTable, x)
Softplus(x) == IF x >= 12 * S THEN x ELSE IF x < -(12 * S) THEN 0 ELSE Lookup(SoftplusTable, x)
==============================================================================
