---------------------------- MODULE QuantileTrace ----------------------------
(* Split candidates of numerical features and super-categories of features with  *)
(* many categories, against the quantiles of the sampled rows. The values of a    *)
(* feature (mean gradients of its categories) lie farther apart than the bins     *)
(* that the implementation uses to find quantiles, so cuts are known exactly.     *)
EXTENDS Quantile, Json, IOUtils
CONSTANTS Tags, Loud
VARIABLES tr, pos

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE
TInit == tr \in 1 .. Len(Traces) /\ pos = 1

F == Rec.feats[pos]
Where == <<"feature", F.f, "update", F.update, "rows", F.rows>>

\* a cut behind the largest value is moved before it, as the limit of a bin past the last one
Moved(v) == IF v = Len(F.c) THEN v - 1 ELSE v
Num(cum, ccum) ==
    LET tol == 2 + (cum[Len(cum)] * (F.m + 1)) \div 1048576
    IN \E ch \in {[i \in 1 .. F.m |-> Behind(cum, i, F.m, tol)]}, floors \in {{F.cand[k].floor : k \in DOMAIN F.cand}} :
       \E may \in {{Moved(v) : v \in May(ch)}} :
       /\ Req("C08", Len(F.cand) >= Cardinality(Must(ch)) /\ Len(F.cand) <= F.m, <<Where, "number of candidates", Len(F.cand)>>)
       /\ Req("C08", \A k \in DOMAIN F.cand : F.cand[k].near, <<Where, "a candidate is not at a value">>)
       /\ Req("C08", floors \subseteq may, <<Where, "a candidate is not at a quantile", floors, F.w>>)
       /\ Req("C08", \A i \in DOMAIN ch : \E v \in ch[i] : Moved(v) \in floors, <<Where, "a quantile is not a candidate", floors, F.w>>)
       /\ Req("C08", \A k \in 1 .. (Len(F.cand) - 1) : F.cand[k].floor <= F.cand[k + 1].floor, <<Where, "candidates are not ascending">>)
       /\ Req("C07", \A k \in DOMAIN F.cand : F.cand[k].pop = ccum[F.cand[k].floor + 1], <<Where, "number of rows in the masks", F.cand, F.c>>)

\* F.sup[g]: super-categories of the categories with the g-th smallest mean gradient
Hi(ccum) ==
    LET n == Len(F.c)
        own == DOMAIN F.c
    IN \E ch \in {[i \in 1 .. F.m |-> BehindRow(ccum, i, F.m)]} : \E mu \in {Must(ch)}, ma \in {May(ch)} :
       LET must(g) == g \in mu \/ (g = n - 1 /\ F.last = "yes" /\ n \in mu)
           may(g) == g \in ma \/ (g = n - 1 /\ F.last # "no" /\ n \in ma)
       IN
       /\ Req("C08", F.ncand >= Cardinality(mu) /\ F.ncand <= Cardinality(ma), <<Where, "number of super-categories", F.ncand, F.c>>)
       /\ Req("C08", \A g \in own : \A k \in DOMAIN F.sup[g] : F.sup[g][k] = F.sup[g][1], <<Where, "categories with the same mean gradient are separated", F.sup>>)
       /\ Req("C08", \A g \in 1 .. (n - 1) : F.sup[g][1] <= F.sup[g + 1][1], <<Where, "super-categories are not ordered by mean gradient", F.sup>>)
       /\ Req("C08", \A g \in 1 .. (n - 1) : F.sup[g][1] < F.sup[g + 1][1] => may(g), <<Where, "separated where there is no quantile", F.sup, F.c>>)
       /\ Req("C08", \A g \in 1 .. (n - 1) : must(g) => F.sup[g][1] < F.sup[g + 1][1], <<Where, "not separated at a quantile", F.sup, F.c>>)
       /\ Req("C07", \A k \in 1 .. F.ncand : F.pop[k] = FoldSet(LAMBDA g, s : s + F.c[g], 0, {g \in own : F.sup[g][1] < k}), <<Where, "number of rows in the masks", F.pop, F.c, F.sup>>)

Feature ==
    /\ Rec.kind = "quant" /\ pos <= Len(Rec.feats)
    /\ IF F.type = "num"
       THEN \E cum \in {Cums(F.w)}, ccum \in {Cums(F.c)} : Num(cum, ccum)
       ELSE \E ccum \in {Cums(F.c)} : Hi(ccum)
    /\ pos' = pos + 1 /\ UNCHANGED tr
End == Rec.kind = "quant" /\ pos = Len(Rec.feats) + 1 /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = pos + 1 /\ UNCHANGED tr
TPanic == Rec.kind = "panic" /\ pos = 1 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos>>
TNext == Feature \/ End \/ TPanic
==============================================================================
