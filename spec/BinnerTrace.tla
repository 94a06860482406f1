----------------------------- MODULE BinnerTrace -----------------------------
(* Recorded histories of a binner: insertions (what is in the bins afterwards)   *)
(* and rank queries. Numbers are in 1/64; what is inserted is a list of tags.     *)
EXTENDS Binner, Json, IOUtils

CONSTANTS Tags, Loud
VARIABLES tr, pos, bins

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

TInit == tr \in 1 .. Len(Traces) /\ pos = 1 /\ bins = IF Traces[tr].kind = "panic" THEN << >> ELSE Traces[tr].start

K == Rec.k
Where == <<"limits", Rec.lo, Rec.hi, "bins", K, "call", pos>>
Allowed(x) ==
    LET b == BinOf(x, Rec.lo, Rec.hi, K)
    IN IF OnBoundary(x, Rec.lo, Rec.hi, K) /\ ~ExactWidth(Rec.lo, Rec.hi, K) THEN {b, b - 1} ELSE {b}

Op == Rec.ops[pos]
Insert ==
    /\ Op.op = "insert"
    /\ Req("C18", Op.got \in Allowed(Op.x), <<Where, "value", Op.x, "is in bin", Op.got, "not in", Allowed(Op.x)>>)
    /\ bins' = [bins EXCEPT ![Op.got + 1] = Append(@, Op.id)]
    /\ Req("C18", Op.bins = bins', <<Where, "value", Op.x, "tag", Op.id, "gives bins", Op.bins, "not", bins'>>)

Weights(how, mult) == [b \in 1 .. K |-> mult * IF how = 0 THEN Len(bins[b]) ELSE FoldSeq(LAMBDA id, s : s + (id % how), 0, bins[b])]
Rank ==
    /\ Op.op = "rank"
    /\ \E w \in {Weights(Op.how, Op.mult)} :
        /\ Req("C18", Op.got = [k \in DOMAIN Op.ranks |-> RankBin(w, Op.ranks[k])], <<Where, "weights", w, "ranks", Op.ranks, "are in bins", Op.got>>)
        /\ Req("C18", Op.single = <<>> \/ Op.single = [k \in DOMAIN Op.ranks |-> RankBin(w, Op.ranks[k])], <<Where, "weights", w, "single ranks", Op.ranks, "are in bins", Op.single>>)
        /\ Req("C18", Op.accum = [k \in DOMAIN Op.ranks |-> RankAccum(w, Op.ranks[k])], <<Where, "weights", w, "ranks", Op.ranks, "accumulated", Op.accum>>)
    /\ UNCHANGED bins

Step == Rec.kind = "binner" /\ pos <= Len(Rec.ops) /\ (Insert \/ Rank) /\ pos' = pos + 1 /\ UNCHANGED tr
End ==
    /\ Rec.kind = "binner" /\ pos = Len(Rec.ops) + 1
    \* representatives, in units of 1/65536; index k is limited to the last bin
    /\ \A k \in DOMAIN Rec.reps :
        LET b == IF k > K THEN K - 1 ELSE k - 1
            up == b * (Rec.hi - Rec.lo)
            want == Rec.lo * 1024 + (up \div K) * 1024 + ((up % K) * 1024) \div K
            d == Rec.reps[k] - want
        IN Req("C18", d \in -16 .. 16, <<Where, "representative of", k - 1, "is", Rec.reps[k], "not", want>>)
    /\ Req("C18", Rec.final = bins /\ Rec.values = [b \in 1 .. K |-> Len(bins[b])], <<Where, "bins in the end", Rec.final, Rec.values, bins>>)
    /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = pos + 1 /\ UNCHANGED <<tr, bins>>

TPanic == Rec.kind = "panic" /\ pos = 1 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos, bins>>
TNext == Step \/ End \/ TPanic
==============================================================================
