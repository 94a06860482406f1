------------------------------ MODULE MCHarley ------------------------------
(* The counting kernel (Harley-Seal): one bit lane of the carry-save adder    *)
(* tree. Sixteen inputs are consumed per round; what is left is counted one   *)
(* by one. The result is the number of ones for every length and every input. *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxN
VARIABLES n, i, pc, reg, total, ones, done
vars == <<n, i, pc, reg, total, ones, done>>

(* <<h, l>>: csa(h, l <- load, load);  <<h, l, a, b>>: csa(h, l <- a, b)       *)
Program == <<
    <<"b02a", "b01">>, <<"b02b", "b01">>, <<"b04a", "b02", "b02a", "b02b">>,
    <<"b02a", "b01">>, <<"b02b", "b01">>, <<"b04b", "b02", "b02a", "b02b">>, <<"b08a", "b04", "b04a", "b04b">>,
    <<"b02a", "b01">>, <<"b02b", "b01">>, <<"b04a", "b02", "b02a", "b02b">>,
    <<"b02a", "b01">>, <<"b02b", "b01">>, <<"b04b", "b02", "b02a", "b02b">>, <<"b08b", "b04", "b04a", "b04b">>,
    <<"b16", "b08", "b08a", "b08b">> >>
Regs == {"b01", "b02", "b04", "b08", "b16", "b02a", "b02b", "b04a", "b04b", "b08a", "b08b"}

Bit == {0, 1}
Carry(a, b, c) == IF a + b + c >= 2 THEN 1 ELSE 0
Sum1(a, b, c) == (a + b + c) % 2

Init == /\ n \in 0 .. MaxN /\ i = 0 /\ pc = 1 /\ reg = [r \in Regs |-> 0] /\ total = 0 /\ ones = 0 /\ done = FALSE

Csa(h, l, x, y) == reg' = [reg EXCEPT ![h] = Carry(reg[l], x, y), ![l] = Sum1(reg[l], x, y)]

Round == pc > 1 \/ i < n - (n % 16)
Adder ==
    /\ Round /\ ~done
    /\ LET o == Program[pc] IN
       IF Len(o) = 2
       THEN \E x, y \in Bit : Csa(o[1], o[2], x, y) /\ ones' = ones + x + y /\ i' = i + 2
       ELSE Csa(o[1], o[2], reg[o[3]], reg[o[4]]) /\ UNCHANGED <<ones, i>>
    /\ IF pc = Len(Program) THEN pc' = 1 /\ total' = total + reg'["b16"] ELSE pc' = pc + 1 /\ UNCHANGED total
    /\ UNCHANGED <<n, done>>

(* after the rounds: the partial sums are added, then the remaining inputs     *)
Reduce == 16 * total + 8 * reg["b08"] + 4 * reg["b04"] + 2 * reg["b02"] + reg["b01"]
Rest ==
    /\ ~Round /\ ~done
    /\ \E r \in 0 .. n - i : total' = Reduce + r /\ ones' = ones + r
    /\ i' = n /\ done' = TRUE /\ UNCHANGED <<n, pc, reg>>

Next == Adder \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Counted == done => total = ones
Between == (pc = 1 /\ ~done) => Reduce = ones
Finishes == <>done
=============================================================================
