-------------------------------- MODULE Loss ---------------------------------
(* The objectives and metrics, in fixed point. err = target - prediction.       *)
EXTENDS Fixed

SortedSeq(s) == SortSeq(s, LAMBDA x, y : x < y)

(* - objectives ----------------------------------------------------------------*)
Objectives == {"L2", "L1", "Huber", "Binary", "Hinge"}

(* the value of rank floor(n * pct / 100), ranks counted from zero; when n * pct *)
(* is a multiple of 100, the rank is also allowed to be rounded down             *)
Ranks(n, pct) == LET r == (n * pct) \div 100 IN
                 {MinI(k, n - 1) : k \in IF (n * pct) % 100 = 0 /\ r > 0 /\ pct # 50 THEN {r, r - 1} ELSE {r}}
Quantiles(s, pct) == {SortedSeq(s)[r + 1] : r \in Ranks(Len(s), pct)}
Median(s) == CHOOSE x \in Quantiles(s, 50) : TRUE

(* a quantile is estimated with 1024 bins over the range of the values           *)
BinWidth(s) == ((Max(ToSet(s)) - Min(ToSet(s))) \div 1024) + 8

BiasOk(obj, ts, b) ==
    LET n == Len(ts)
        npos == Cardinality({i \in DOMAIN ts : ts[i] = S})
    IN CASE obj = "L2" -> Near(b * n, SumSeq(ts), 8 * n)
         [] obj \in {"L1", "Huber"} -> Near(b, Median(ts), BinWidth(ts))
         [] obj = "Binary" -> Near(Logistic(2 * b) * n, S * (n - npos), 6 * n)
         [] obj = "Hinge" -> Near(b * n, S * (2 * npos - n), 8 * n)

(* delta: the bound of the Huber loss                                            *)
BoundsOk(obj, errs, lo, hi, pct, bgb) ==
    CASE obj = "L2" -> LET m == MinI(AbsI(Min(ToSet(errs))), AbsI(Max(ToSet(errs)))) IN Near(lo, -m, 4) /\ Near(hi, m, 4)
      [] obj = "L1" -> lo = -S /\ hi = S
      [] obj = "Huber" -> lo = -hi /\ \E q \in Quantiles(errs, pct) : Near(hi, AbsI(q), BinWidth(errs))
      [] obj = "Binary" -> lo = -bgb /\ hi = bgb
      [] obj = "Hinge" -> lo = -S /\ hi = 2 * S

(* the negative pseudo-residual: what an infinitesimal increase of the prediction adds to the loss *)
GradientOk(obj, t, p, delta, g) ==
    LET e == t - p IN
    CASE obj = "L2" -> Near(g, -e, 4)
      [] obj = "L1" -> IF AbsI(e) <= 2 THEN g \in {-S, 0, S} ELSE g = -(S * SignI(e))
      [] obj = "Huber" -> Near(g, -(SignI(e) * MinI(AbsI(e), delta)), 4)
      [] obj = "Binary" -> IF t = S THEN Near(g, -(2 * Logistic(2 * p)), 8) ELSE Near(g, 2 * Logistic(-(2 * p)), 8)
      [] obj = "Hinge" -> IF t = 0
                          THEN IF AbsI(p + S) <= 2 THEN g \in {0, S} ELSE g = (IF p > -S THEN S ELSE 0)
                          ELSE IF AbsI(p - S) <= 2 THEN g \in {0, -S} ELSE g = (IF p < S THEN -S ELSE 0)

Clip(x, d) == SignI(x) * MinI(AbsI(x), d)

(* the estimate of a leaf; errs, ts, ps, gs: of its rows. width: of the bins      *)
(* v * den / num is the estimate, up to shrinkage num / den                       *)
LeafOk(obj, ts, ps, gs, delta, width, num, den, v) ==
    LET c == Len(ts)
        errs == [i \in 1 .. c |-> ts[i] - ps[i]]
        pos(x) == MaxI(x, 0)
        sq(x) == MulDiv(x, x, S)
    IN CASE obj = "L2" -> Near(v * den, MulDiv(num, SumSeq(errs), c), 8 * den)
         [] obj = "L1" -> Near(v * den, num * Median(errs), num * width + 8 * den)
         [] obj = "Huber" -> Near(v * den, MulDiv(num, c * Median(errs) + SumSeq([i \in 1 .. c |-> Clip(errs[i] - Median(errs), delta)]), c), num * width + 8 * den)
         [] obj = "Binary" ->
              LET up == -SumSeq(gs)
                  down == SumSeq([i \in 1 .. c |-> MulDiv(AbsI(gs[i]), 2 * S - AbsI(gs[i]), S)])
                  w == MulDiv(v, den, num)
              IN Near(MulDiv(w, down, S), up, c * (6 + (6 * ((AbsI(w) \div S) + 1)) + 8))
         [] obj = "Hinge" -> Near(v * den, MulDiv(num, SumSeq([i \in 1 .. c |-> IF ts[i] = 0 THEN -sq(pos(2 * S + ps[i])) ELSE sq(pos(2 * S - ps[i]))]), c),
                                  64 * den)

(* - many rows of few kinds: ws[i] rows of kind i ---------------------------------*)
(* the sum of a mean is computed with floats of 24 bits, row by row: for fewer     *)
(* than 2^18 rows the error is less than 1/64 of the mean absolute value           *)
WMean(xs, ws) == LET n == SumSeq(ws) IN SumSeq([i \in DOMAIN xs |-> MulDiv(ws[i], xs[i], n)])
WTol(xs, ws) == (WMean([i \in DOMAIN xs |-> AbsI(xs[i])], ws) \div 64) + Len(xs) + 8
NearMean(x, xs, ws) == Near(x, WMean(xs, ws), WTol(xs, ws))
(* the value of rank r: the smallest with more than r rows up to it; the rank is the floor of a product of floats *)
WRanks(n, pct) == LET m == n * (pct % 100) IN
    {MinI(MaxI(k, 0), n - 1) : k \in {m \div 100} \cup (IF m % 100 <= 2 THEN {(m \div 100) - 1} ELSE {}) \cup (IF m % 100 >= 98 THEN {(m \div 100) + 1} ELSE {})}
WAtRank(xs, ws, r) == Min({xs[i] : i \in {i \in DOMAIN xs : SumSeq([j \in DOMAIN xs |-> IF xs[j] <= xs[i] THEN ws[j] ELSE 0]) > r}})
WQuantiles(xs, ws, pct) == {WAtRank(xs, ws, r) : r \in WRanks(SumSeq(ws), pct)}
WMedian(xs, ws) == WAtRank(xs, ws, SumSeq(ws) \div 2)

WBiasOk(obj, ts, ws, b) ==
    CASE obj = "L2" -> NearMean(b, ts, ws)
      [] obj \in {"L1", "Huber"} -> Near(b, WMedian(ts, ws), BinWidth(ts))
      [] obj = "Binary" -> Near(Logistic(2 * b), WMean([i \in DOMAIN ts |-> S - ts[i]], ws), 8 + Len(ts))
      [] obj = "Hinge" -> Near(b, WMean([i \in DOMAIN ts |-> 2 * ts[i] - S], ws), 8 + Len(ts))
WBoundsOk(obj, errs, ws, lo, hi, pct, bgb) ==
    IF obj = "Huber" THEN lo = -hi /\ \E q \in WQuantiles(errs, ws, pct) : Near(hi, AbsI(q), BinWidth(errs))
    ELSE BoundsOk(obj, errs, lo, hi, pct, bgb)
WLeafOk(obj, ts, ps, gs, ws, delta, width, num, den, v) ==
    LET c == Len(ts)
        errs == [i \in 1 .. c |-> ts[i] - ps[i]]
        pos(x) == MaxI(x, 0)
        sq(x) == MulDiv(x, x, S)
        x == MulDiv(v, den, num)
        slack == 8 + (16 * den)
    IN CASE obj = "L2" -> Near(x, WMean(errs, ws), WTol(errs, ws) + slack)
         [] obj = "L1" -> Near(x, WMedian(errs, ws), width + slack)
         [] obj = "Huber" -> \E clips \in {[i \in 1 .. c |-> Clip(errs[i] - WMedian(errs, ws), delta)]} :
                             Near(x, WMedian(errs, ws) + WMean(clips, ws), WTol(clips, ws) + width + slack)
         [] obj = "Binary" ->
              \E up \in {[i \in 1 .. c |-> -gs[i]]}, down \in {[i \in 1 .. c |-> MulDiv(AbsI(gs[i]), 2 * S - AbsI(gs[i]), S)]} :
              Near(MulDiv(x, WMean(down, ws), S), WMean(up, ws), WTol(up, ws) + MulDiv(AbsI(x), WTol(down, ws) + 6, S) + slack)
         [] obj = "Hinge" -> \E sqs \in {[i \in 1 .. c |-> IF ts[i] = 0 THEN -sq(pos(2 * S + ps[i])) ELSE sq(pos(2 * S - ps[i]))]} :
                             Near(x, WMean(sqs, ws), WTol(sqs, ws) + 64 + slack)

(* - metrics -------------------------------------------------------------------*)
MetricNames ==  \* what may be asked for, in lower case -> the metric
    ("l2" :> "L2") @@ ("rmse" :> "Rmse") @@ ("binaryloss" :> "BinaryLoss") @@ ("binary_loss" :> "BinaryLoss")
    @@ ("binaryerror" :> "BinaryError") @@ ("binary_error" :> "BinaryError")
    @@ ("binaryerror01" :> "BinaryError01") @@ ("binary_error01" :> "BinaryError01")
ObjectiveNames == ("l2" :> "L2") @@ ("l1" :> "L1") @@ ("huber" :> "Huber") @@ ("binary" :> "Binary") @@ ("hinge" :> "Hinge")
MetricOfObjective == ("l2" :> "Rmse") @@ ("l1" :> "Rmse") @@ ("huber" :> "Rmse") @@ ("binary" :> "BinaryLoss")
NameOf(f, x) == IF x \in DOMAIN f THEN f[x] ELSE ""

SumBy(f(_, _), ts, ps) == SumSeq([i \in DOMAIN ts |-> f(ts[i], ps[i])])
SqErr(t, p) == MulDiv(t - p, t - p, S)
(* longer ones have small values *)
MeanSq(ts, ps) == IF Len(ts) > 60 THEN SumBy(SqErr, ts, ps) \div Len(ts)
                  ELSE SumBy(LAMBDA t, p : SqErr(t, p) \div Len(ts), ts, ps)
Slack(ts, x) == (x \div 50000) + (IF Len(ts) > 60 THEN x \div 5000 ELSE Len(ts))
WrongSide(t, p, cut) == IF (t < S \div 2) = (p < cut) THEN 0 ELSE 1

WMetricOk(m, ts, ps, ws, x) ==
    LET by(f(_, _)) == [i \in DOMAIN ts |-> f(ts[i], ps[i])] IN
    CASE m = "L2" -> NearMean(x, by(SqErr), ws)
      [] m = "Rmse" -> x >= 0 /\ Near(MulDiv(x, x, S), WMean(by(SqErr), ws), WTol(by(SqErr), ws) + (x \div 1000) + 8)
      [] m = "BinaryLoss" -> NearMean(x, by(LAMBDA t, p : Softplus(IF t < S \div 2 THEN 2 * p ELSE -(2 * p)) + 8), ws)
      [] m = "BinaryError" -> Near(x, WMean(by(LAMBDA t, p : S * WrongSide(t, p, 0)), ws), 8 + Len(ts))
      [] m = "BinaryError01" -> Near(x, WMean(by(LAMBDA t, p : S * WrongSide(t, p, S \div 2)), ws), 8 + Len(ts))

MetricOk(m, ts, ps, x) ==
    LET n == Len(ts) IN
    CASE m = "L2" -> Near(x, MeanSq(ts, ps), 8 + Slack(ts, x))
      [] m = "Rmse" -> LET y == MeanSq(ts, ps) IN
                       x >= 0 /\ Near(MulDiv(x, x, S), y, 16 + (x \div 2000) + Slack(ts, y))
      [] m = "BinaryLoss" -> Near(x * n, SumBy(LAMBDA t, p : Softplus(IF t < S \div 2 THEN 2 * p ELSE -(2 * p)), ts, ps), n * (8 + (x \div 5000)))
      [] m = "BinaryError" -> Near(x * n, S * SumBy(LAMBDA t, p : WrongSide(t, p, 0), ts, ps), n)
      [] m = "BinaryError01" -> Near(x * n, S * SumBy(LAMBDA t, p : WrongSide(t, p, S \div 2), ts, ps), n)
==============================================================================
