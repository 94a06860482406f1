----------------------------- MODULE StoreTrace ------------------------------
(* Recorded histories of SliceStore, HistStore and BitBlockStore. The user's   *)
(* view of Store.tla: live ranges, and what is in them.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt

CONSTANTS Tags, Loud
VARIABLES tr, pos, live
\* live: handle -> [lo, hi, v], v a sequence of numbers, of histograms, or a set of bits

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

TInit == tr \in 1 .. Len(Traces) /\ pos = 1 /\ live = << >>
Op == Rec.ops[pos]

With(id, x) == [i \in DOMAIN live \cup {id} |-> IF i = id THEN x ELSE live[i]]
Without(id) == [i \in DOMAIN live \ {id} |-> live[i]]
Apart(r) == \A i \in DOMAIN live : r[2] <= live[i].lo \/ live[i].hi <= r[1]

Fresh(n, v) ==
    /\ Req("C12", Op.r[2] - Op.r[1] = n /\ Op.r[1] >= 0, <<"operation", pos, "a range of the wrong size", Op.r, n>>)
    /\ Req("C12", Apart(Op.r), <<"operation", pos, "a range that overlaps a live one", Op.r, [i \in DOMAIN live |-> <<live[i].lo, live[i].hi>>]>>)
    /\ live' = With(Op.id, [lo |-> Op.r[1], hi |-> Op.r[2], v |-> v])

Ids(seq) == {seq[k].id : k \in DOMAIN seq}
Gone == IF Op.op = "free" THEN live' = Without(Op.id) ELSE live' = << >>

SliceStep ==
    /\ Rec.kind = "store"
    /\ CASE Op.op = "alloc" -> Fresh(Op.n, [k \in 1 .. Op.n |-> Op.v])
         [] Op.op = "write" -> live' = FoldSeq(LAMBDA w, l : [l EXCEPT ![w[1]].v[w[2] + 1] = w[3]], live, Op.w)
         [] OTHER -> Gone
    /\ Req("C12", Ids(Op.live) = DOMAIN live' /\ \A k \in DOMAIN Op.live : Op.live[k].v = live'[Op.live[k].id].v,
           <<"operation", pos, Op.op, "the contents are", Op.live, "but should be", [i \in DOMAIN live' |-> live'[i].v]>>)

(* histograms: one sequence per feature; those over 1000 long are recorded by their last three *)
Cut(h) == IF Len(h) > 1000 THEN SubSeq(h, Len(h) - 2, Len(h)) ELSE h
HistStep ==
    /\ Rec.kind = "hist"
    /\ CASE Op.op = "alloc" -> Fresh(FoldSeq(+, 0, Rec.bins), [f \in 1 .. Len(Rec.bins) |-> [k \in 1 .. Rec.bins[f] |-> 0]])
         [] Op.op = "write" -> live' = [live EXCEPT ![Op.id].v[Op.f + 1][Op.k + 1] = Op.v]
         [] Op.op = "subtract" -> live' = [live EXCEPT ![Op.d].v =
                [f \in 1 .. Len(Rec.bins) |-> [k \in 1 .. Rec.bins[f] |-> live[Op.p].v[f][k] - live[Op.l].v[f][k]]]]
         [] OTHER -> Gone
    /\ Req("C12", Ids(Op.live) = DOMAIN live' /\ \A k \in DOMAIN Op.live : \A f \in 1 .. Len(Rec.bins) :
                     Op.live[k].h[f] = Cut(live'[Op.live[k].id].v[f]),
           <<"operation", pos, Op, "histograms differ", Op.live>>)

BitStep ==
    /\ Rec.kind = "bits"
    /\ CASE Op.op = "alloc" ->
               LET nb == (Op.n + 255) \div 256 IN
               Fresh(IF Op.how = "bitslice" THEN 4 * nb ELSE IF Op.how = "iter" THEN ((((Op.n + 7) \div 8) * 8) + 255) \div 256 ELSE nb,
                     IF Op.how = "one_bits" THEN 0 .. Op.n - 1 ELSE IF Op.how = "one_blocks" THEN 0 .. (256 * nb - 1) ELSE ToSet(Op.init))
         [] Op.op = "write" -> live' = [live EXCEPT ![Op.id].v = IF Op.on THEN @ \cup {Op.k} ELSE @ \ {Op.k}]
         [] OTHER -> Gone
    /\ Req("C12", Ids(Op.live) = DOMAIN live' /\ \A k \in DOMAIN Op.live : \E x \in {live'[Op.live[k].id]} :
                     /\ Op.live[k].len = x.hi - x.lo /\ Op.live[k].size = Cardinality(x.v) /\ Op.live[k].sum = FoldSet(+, 0, x.v),
           <<"operation", pos, Op, "sets differ">>)

(* long ranges: n numbers, of which the first are base and the others rest, except for the points written since *)
Point(v, k) == IF k \in DOMAIN v.pts THEN v.pts[k] ELSE IF k < v.first THEN v.base ELSE v.rest
Minus(a, b) == [n |-> a.n, first |-> a.first, base |-> a.base - b.base, rest |-> a.rest - b.rest,
                pts |-> [k \in DOMAIN a.pts \cup DOMAIN b.pts |-> Point(a, k) - Point(b, k)]]
\* a run [from, length, value] agrees with v, in which it may not go across the end of the first
RunOk(v, r) ==
    \E inside \in {{k \in DOMAIN v.pts : r[1] <= k /\ k < r[1] + r[2]}} :
        /\ \A k \in inside : v.pts[k] = r[3]
        /\ \E a \in {Cardinality({k \in inside : k < v.first})} :
            LET before == Max({0, Min({v.first, r[1] + r[2]}) - r[1]})
            IN  /\ before > a => v.base = r[3]
                /\ r[2] - before > Cardinality(inside) - a => v.rest = r[3]
Covers(runs, n) == /\ runs[1][1] = 0 /\ runs[Len(runs)][1] + runs[Len(runs)][2] = n
                   /\ \A k \in 1 .. Len(runs) - 1 : runs[k + 1][1] = runs[k][1] + runs[k][2]
HugeStep ==
    /\ Rec.kind = "huge"
    /\ CASE Op.op = "alloc" -> Fresh(Op.n, [n |-> Op.n * Rec.per, first |-> Op.first, base |-> Op.base, rest |-> Op.rest, pts |-> << >>])
         [] Op.op = "write" -> live' = [live EXCEPT ![Op.id].v.pts = (Op.k :> Op.v) @@ @]
         [] Op.op = "subtract" -> live' = [live EXCEPT ![Op.d].v = Minus(live[Op.p].v, live[Op.l].v)]
         [] OTHER -> Gone
    /\ Req("C12", Ids(Op.live) = DOMAIN live' /\ \A k \in DOMAIN Op.live : \E v \in {live'[Op.live[k].id].v} :
                     /\ Op.live[k].n = v.n /\ Covers(Op.live[k].runs, v.n)
                     /\ \A q \in DOMAIN Op.live[k].runs : RunOk(v, Op.live[k].runs[q]),
           <<"operation", pos, Op.op, "long ranges: the contents are", Op.live, "but should be", live'>>)

Step == pos <= Len(Rec.ops) /\ (SliceStep \/ HistStep \/ BitStep \/ HugeStep) /\ pos' = pos + 1 /\ UNCHANGED tr

End ==
    /\ Rec.kind # "panic" /\ pos = Len(Rec.ops) + 1
    /\ Rec.kind = "bits" => Req("C12", \A k \in DOMAIN Rec.final : ToSet(Rec.final[k].ones) = live[Rec.final[k].id].v, <<"sets differ in the end">>)
    /\ PrintT(<<"ACCEPT", tr>>)
    /\ pos' = pos + 1 /\ UNCHANGED <<tr, live>>

TPanic == Rec.kind = "panic" /\ pos = 1 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos, live>>

TNext == (Rec.kind # "panic" /\ Step) \/ End \/ TPanic
==============================================================================
