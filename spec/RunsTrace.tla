------------------------------ MODULE RunsTrace -----------------------------
(* Several runs of the learner that have to be the same run: they advance in *)
(* lock-step, tree by tree, and a run that ends earlier (fewer iterations)   *)
(* is a prefix of the others.                                                *)
(* Also: how often each row and feature is sampled (Sampling).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt

CONSTANTS Tags, Loud
VARIABLES tr, pos

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Where == <<Rec.kind, Rec.tr>>
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

TInit == tr \in 1 .. Len(Traces) /\ pos = 0

Longest == Max({Len(Rec.runs[i].groups) : i \in DOMAIN Rec.runs})
Ref == CHOOSE i \in DOMAIN Rec.runs : Len(Rec.runs[i].groups) = Longest

Same ==
    /\ Rec.kind = "same" /\ pos < Longest
    /\ \A i \in DOMAIN Rec.runs :
         IF Len(Rec.runs[i].groups) <= pos THEN TRUE ELSE
            Req(Rec.prop, Rec.runs[i].groups[pos + 1] = Rec.runs[Ref].groups[pos + 1],
                <<"tree", pos + 1, "differs:", Rec.runs[i].label, "from", Rec.runs[Ref].label>>)
    /\ pos' = pos + 1 /\ UNCHANGED tr

\* the same number of iterations: the same predictions
Finish ==
    /\ Rec.kind = "same" /\ pos = Longest
    /\ \A i, j \in DOMAIN Rec.runs :
         IF i >= j \/ Rec.runs[i].niter # Rec.runs[j].niter THEN TRUE ELSE
            /\ Req(Rec.prop, Rec.runs[i].preds = Rec.runs[j].preds, <<"predictions differ:", Rec.runs[i].label, Rec.runs[j].label>>)
            /\ Req(Rec.prop, Rec.runs[i].probe = Rec.runs[j].probe, <<"predictions of other rows differ:", Rec.runs[i].label, Rec.runs[j].label>>)
            /\ Req(Rec.prop, Len(Rec.runs[i].groups) = Len(Rec.runs[j].groups), <<"number of trees", Rec.runs[i].label, Rec.runs[j].label>>)
    /\ PrintT(<<"ACCEPT", tr>>)
    /\ pos' = pos + 1 /\ UNCHANGED tr

---------------------------------------------------------------------------
\* C06: the number of times something is in k-out-of-n samples, in m of them: at most six standard
\* deviations away from m * k / n. d is the distance, v the variance.
Plausible(c, m, k, n) == LET d == (n * c - m * k) \div n
                             v == (((m * k) \div n) * (n - k)) \div n
                         IN d * d <= 36 * v + 36
Pairs(n) == (n * (n - 1)) \div 2
Sampled ==
    /\ Rec.kind = "sampled" /\ pos = 0
    /\ \A s \in DOMAIN Rec.sources :
         LET x == Rec.sources[s] IN
         /\ Req("C06", \A i \in DOMAIN x.count : Plausible(x.count[i], x.m, x.k, x.n), <<x.what, "selected too rarely or too often", x.n, x.k, x.m, x.count>>)
         /\ Req("C06", FoldSeq(+, 0, x.count) = x.m * x.k, <<x.what, "sizes of the samples">>)
         \* two of them together: k (k - 1) out of n (n - 1)
         /\ Req("C06", \A i \in DOMAIN x.pair : Plausible(x.pair[i], x.m, x.k * (x.k - 1), x.n * (x.n - 1)), <<x.what, "pairs", x.n, x.k, x.m, x.pair>>)
         /\ Req("C06", x.k = x.n \/ x.repeats * x.n <= x.m * 4 \/ Pairs(x.n) < 10, <<x.what, "the same sample again and again", x.repeats>>)
    /\ PrintT(<<"ACCEPT", tr>>)
    /\ pos' = 1 /\ UNCHANGED tr

\* the size is the fraction of n, rounded; of a group of g rows about k * g / n are in the sample (g * k <= 2^31)
RoundOk(k, n, num, den) == 2 * k * den - den <= 2 * n * num /\ 2 * n * num <= 2 * k * den + den
Resampled(u) == u = 1 \/ (Rec.freq # 0 /\ u % Rec.freq = 0)
Share(c, g, k, n) == LET mean == ((g \div 10) * (k \div 10)) \div (n \div 100)
                         d == c - mean
                     IN d * d <= 36 * mean + 10000
BigSample ==
    /\ Rec.kind = "bigsample" /\ pos < Len(Rec.samples)
    /\ LET u == pos + 1
           x == Rec.samples[u] IN
        /\ Req("C06", x.ascending, <<"the sample is not ascending, or has a row twice", Rec.n, u>>)
        /\ Req("C06", RoundOk(x.size, Rec.n, Rec.efn, 100), <<"size of a sample", Rec.n, Rec.efn, x.size>>)
        /\ Req("C06", x.same = ~Resampled(u), <<"sampled when it should not be, or not sampled when it should be", u, Rec.freq, x.same>>)
        /\ \A i \in DOMAIN x.tenths : Req("C06", Share(x.tenths[i], Rec.tenths[i], x.size, Rec.n), <<"tenth", i, "of the rows", x.tenths, Rec.n, Rec.efn>>)
        /\ \A i \in DOMAIN x.words : Req("C06", Share(x.words[i], Rec.words[i], x.size, Rec.n), <<"every 32nd row from", i, x.words, Rec.n, Rec.efn>>)
        /\ Req("C06", u = 1 \/ ~Resampled(u) \/ Share(x.common, x.size, x.size, Rec.n), <<"rows in a sample and the one before", x.common, x.size, Rec.n>>)
    /\ IF pos + 1 = Len(Rec.samples) THEN PrintT(<<"ACCEPT", tr>>) ELSE TRUE
    /\ pos' = pos + 1 /\ UNCHANGED tr

\* the samples change at exactly the updates at which they have to (they are large enough to tell)
LongSample ==
    /\ Rec.kind = "longsample" /\ pos = 0
    /\ \E due \in {IF Rec.freq = 0 THEN <<>> ELSE SelectSeq([k \in 1 .. Rec.m \div Rec.freq |-> k * Rec.freq], LAMBDA u : u > 1)} :
        /\ Req("C06", Rec.rows = IF Rec.bag THEN due ELSE <<>>, <<"the rows are sampled at the wrong updates", Rec.freq, Rec.m>>)
        /\ Req("C06", Rec.feats = IF Rec.ffs THEN due ELSE <<>>, <<"the features are sampled at the wrong updates", Rec.freq, Rec.m>>)
        /\ Req("C06", Rec.odd = 0, <<"samples of the wrong size, or with something twice", Rec.odd>>)
    /\ PrintT(<<"ACCEPT", tr>>)
    /\ pos' = 1 /\ UNCHANGED tr

TPanic == Rec.kind = "panic" /\ pos = 0 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos>>

TNext == Same \/ Finish \/ Sampled \/ BigSample \/ LongSample \/ TPanic
=============================================================================
