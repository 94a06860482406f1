-------------------------------- MODULE Text ---------------------------------
(* Text as sequences of character codes: blanks, splitting, numbers.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

IsBlank(c) == c = 32 \/ c \in 9 .. 13
Trim(s) ==
    LET in == {k \in DOMAIN s : ~IsBlank(s[k])}
    IN IF in = {} THEN << >> ELSE SubSeq(s, Min(in), Max(in))
Lower(s) == [k \in DOMAIN s |-> IF s[k] \in 65 .. 90 THEN s[k] + 32 ELSE s[k]]
Holds(s, part) == \* part occurs in s
    \E k \in 0 .. Len(s) - Len(part) : SubSeq(s, k + 1, k + Len(part)) = part

\* the parts between the occurrences of c
Split(s, c) ==
    LET at == SetToSortSeq({k \in DOMAIN s : s[k] = c}, <)
        cut == <<0>> \o at \o <<Len(s) + 1>>
    IN [j \in 1 .. Len(cut) - 1 |-> SubSeq(s, cut[j] + 1, cut[j + 1] - 1)]
Has(s, c) == \E k \in DOMAIN s : s[k] = c
First(s, c) == Min({k \in DOMAIN s : s[k] = c})

Digits == 48 .. 57
AllDigits(s) == s # << >> /\ \A k \in DOMAIN s : s[k] \in Digits
Unsigned(s) == IF s # << >> /\ s[1] = 43 THEN Tail(s) ELSE s       \* without a plus sign
NoZeros(s) == \* without leading zeros
    LET nz == {k \in DOMAIN s : s[k] # 48} IN IF nz = {} THEN <<48>> ELSE SubSeq(s, Min(nz), Len(s))
\* digit sequences without leading zeros, in the order of the numbers
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = << >> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLeq(Tail(a), Tail(b))
NumLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))
\* a natural up to max (digits)
IsNat(s, max) == AllDigits(Unsigned(s)) /\ NumLeq(NoZeros(Unsigned(s)), max)
NatOf(s) == NoZeros(Unsigned(s))
IntOf(s) == FoldSeq(LAMBDA c, v : 10 * v + (c - 48), 0, s)      \* small ones

(* decimal numbers: sign, digits with an optional point, an optional exponent    *)
Sign(s) == IF s # << >> /\ s[1] \in {43, 45} THEN <<s[1]>> ELSE << >>
Body(s) == IF Sign(s) = << >> THEN s ELSE Tail(s)
ExpAt(s) == {k \in DOMAIN s : s[k] \in {69, 101}}
Mantissa(s) == IF ExpAt(s) = {} THEN s ELSE SubSeq(s, 1, Min(ExpAt(s)) - 1)
Exponent(s) == IF ExpAt(s) = {} THEN <<48>> ELSE SubSeq(s, Min(ExpAt(s)) + 1, Len(s))
PointAt(m) == {k \in DOMAIN m : m[k] = 46}
Whole(m) == IF PointAt(m) = {} THEN m ELSE SubSeq(m, 1, Min(PointAt(m)) - 1)
Fraction(m) == IF PointAt(m) = {} THEN << >> ELSE SubSeq(m, Min(PointAt(m)) + 1, Len(m))

Words == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>, <<110, 97, 110>>}   \* inf, infinity, nan
IsDecimal(s) ==
    LET b == Body(s)
        m == Mantissa(b)
    IN /\ AllDigits(Whole(m) \o Fraction(m))
       /\ AllDigits(Body(Exponent(b)))
IsFloat(s) == IsDecimal(s) \/ Lower(Body(s)) \in Words

Pow10(n) == FoldSeq(LAMBDA x, v : 10 * v, 1, [j \in 1 .. n |-> 0])
Limit == 2000000000
(* value of a decimal in millionths: <<"micro", v, exact>>, <<"big", sign>> when  *)
(* beyond Limit, or the word.                                                     *)
FloatValue(s) ==
    IF ~IsDecimal(s) THEN <<"word", Lower(Body(s)), Sign(s) = <<45>> >>
    ELSE LET b == Body(s)
             m == Mantissa(b)
             e == LET x == IntOf(Body(Exponent(b))) IN IF Sign(Exponent(b)) = <<45>> THEN -x ELSE x
             all == NoZeros(Whole(m) \o Fraction(m))
             cut == IF Len(all) > 9 THEN Len(all) - 9 ELSE 0      \* nine digits are enough
             d == IntOf(SubSeq(all, 1, Len(all) - cut))
             p == e - Len(Fraction(m)) + 6 + cut
             sg == IF Sign(s) = <<45>> THEN -1 ELSE 1
         IN IF d = 0 THEN <<"micro", 0, TRUE>>
            ELSE IF p > 9 \/ (p >= 0 /\ d > Limit \div Pow10(p)) THEN <<"big", sg>>
            ELSE IF p >= 0 THEN <<"micro", sg * d * Pow10(p), cut = 0>>
            ELSE IF p < -9 THEN <<"micro", 0, FALSE>>
            ELSE <<"micro", sg * (d \div Pow10(-p)), cut = 0 /\ d % Pow10(-p) = 0>>
Abs(x) == IF x < 0 THEN -x ELSE x
(* got: <<"micro", v>> (rounded), <<"big", sign>>, <<"inf", sign>> or <<"nan">>   *)
SameFloat(s, got) ==
    LET want == FloatValue(s) IN
    IF want[1] = "word"
    THEN IF want[2][1] = 110 THEN got[1] = "nan" ELSE got = <<"inf", IF want[3] THEN -1 ELSE 1>>
    ELSE IF want[1] = "big" THEN got[1] \in {"big", "inf"} /\ got[2] = want[2]
    ELSE got[1] = "micro" /\ Abs(got[2] - want[2]) <= (Abs(want[2]) \div 4194304) + (IF want[3] THEN 0 ELSE 1)

(* decimals of any length, exactly: digits without leading zeros times a power of ten *)
DecOf(s) ==
    LET m == Mantissa(Body(s))
        x == Exponent(Body(s))
        e == IF Sign(x) = <<45>> THEN -IntOf(Body(x)) ELSE IntOf(Body(x))
    IN <<NoZeros(Whole(m) \o Fraction(m)), e - Len(Fraction(m))>>
IsZero(a) == a[1] = <<48>>
DigitOf(d, k) == IF k <= Len(d) THEN d[k] ELSE 48
DecLess(a, b) == \* a < b
    IF IsZero(b) THEN FALSE
    ELSE IF IsZero(a) THEN TRUE
    ELSE IF Len(a[1]) + a[2] # Len(b[1]) + b[2] THEN Len(a[1]) + a[2] < Len(b[1]) + b[2]
    ELSE LET n == IF Len(a[1]) > Len(b[1]) THEN Len(a[1]) ELSE Len(b[1])
             differ == {k \in 1 .. n : DigitOf(a[1], k) # DigitOf(b[1], k)}
         IN differ # {} /\ DigitOf(a[1], Min(differ)) < DigitOf(b[1], Min(differ))
(* The float nearest to the decimal s: it is between the middles of that float and *)
(* its neighbours, near = [lo, hi, even, neg] (no lo: zero, no hi: infinity). Of   *)
(* two floats at the same distance it is the even one.                             *)
Nearest(s, near) ==
    IF ~IsDecimal(s) THEN TRUE
    ELSE \E t \in {DecOf(s)} :
         /\ near.lo # << >> => (IF near.even THEN ~DecLess(t, near.lo) ELSE DecLess(near.lo, t))
         /\ near.hi # << >> => (IF near.even THEN ~DecLess(near.hi, t) ELSE DecLess(t, near.hi))
         /\ near.lo # << >> => near.neg = (Sign(s) = <<45>>)
==============================================================================
