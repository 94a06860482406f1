----------------------------- MODULE BitsTrace ------------------------------
(* Recorded queries on and changes of bit sets and bit slices against Bits.   *)
EXTENDS Bits, Json, IOUtils

CONSTANTS Tags, Loud
VARIABLES tr, pos, st

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

\* all values of a sequence of results are v
AllAre(seq, v) == \A k \in DOMAIN seq : seq[k] = v
Ascending(seq) == \A k \in 1 .. Len(seq) - 1 : seq[k] < seq[k + 1]
\* the sequence enumerates the set in ascending order
Lists(seq, set) == Len(seq) = Cardinality(set) /\ Ascending(seq) /\ ToSet(seq) = set
Prefix(seq, n) == SubSeq(seq, 1, IF n < Len(seq) THEN n ELSE Len(seq))

TInit == tr \in 1 .. Len(Traces) /\ pos = 0 /\ st = <<>>

Done == PrintT(<<"ACCEPT", tr>>) /\ pos' = pos + 1 /\ UNCHANGED <<tr, st>>

---------------------------------------------------------------------------
Pair ==
    /\ Rec.kind = "pair" /\ pos = 0
    /\ \E A \in {ToSet(Rec.a)}, B \in {ToSet(Rec.b)} :
       \E AB \in {A \cap B} :
        /\ Req("C13", AllAre(Rec.r.nblocks, Blocks(Rec.n)), <<"number of blocks", Rec.n, Rec.r.nblocks, Rec.how>>)
        /\ Req("C13", AllAre(Rec.r.count, Cardinality(A)), <<"count", Rec.n, Rec.r.count, "is not", Cardinality(A), Rec.how>>)
        /\ Req("C13", AllAre(Rec.r.count_and, Cardinality(AB)), <<"count of two masks", Rec.n, Rec.r.count_and, "is not", Cardinality(AB)>>)
        /\ Req("C13", AllAre(Rec.r.zero, A = {}), <<"is_zero", Rec.n, Rec.r.zero, A = {}>>)
        /\ \A k \in DOMAIN Rec.r.all : Req("C13", Lists(Rec.r.all[k].v, A), <<Rec.r.all[k].how, Rec.n, Rec.how, Len(Rec.r.all[k].v), Cardinality(A)>>)
        /\ \A k \in DOMAIN Rec.r.and : Req("C13", Lists(Rec.r.and[k].v, AB), <<Rec.r.and[k].how, Rec.n, Len(Rec.r.and[k].v), Cardinality(AB)>>)
        /\ \A k \in DOMAIN Rec.r.andnot : Req("C13", Lists(Rec.r.andnot[k].v, A \ B), <<Rec.r.andnot[k].how, Rec.n, Len(Rec.r.andnot[k].v)>>)
        /\ Req("C13", Rec.r.first = Prefix(Rec.a, Rec.stop), <<"for_each_index stopped", Rec.stop, Rec.r.first>>)
        /\ Req("C13", Rec.r.firstand = Prefix(SelectSeq(Rec.a, LAMBDA p : p \in B), Rec.stop), <<"for_each_index_and stopped", Rec.stop, Rec.r.firstand>>)
        /\ Req("C13", Lists(Rec.r.or, A \cup B), <<"or_assign", Rec.n, Len(Rec.r.or)>>)
        /\ Req("C13", Lists(Rec.r.b, B), <<"or_assign changes its argument", Rec.n>>)
    /\ Done

Compr ==
    /\ Rec.kind = "compr" /\ pos = 0
    /\ \E A \in {ToSet(Rec.a)}, M \in {ToSet(Rec.m)} :
       \E ALL \in {[k \in DOMAIN Rec.a |-> Orig(Rec.idx, Rec.a[k])]} :
        /\ Req("C13", AllAre(Rec.r.count_and, CountAndC(Rec.idx, A, M)), <<"count of a compressed mask", Rec.r.count_and, CountAndC(Rec.idx, A, M)>>)
        /\ \A k \in DOMAIN Rec.r.all : Req("C13", Rec.r.all[k].v = ALL, <<Rec.r.all[k].how, Len(ALL), Len(Rec.r.all[k].v)>>)
        /\ \A k \in DOMAIN Rec.r.and : Req("C13", Rec.r.and[k].v = SelectSeq(ALL, LAMBDA p : p \in M), <<Rec.r.and[k].how>>)
        /\ \A k \in DOMAIN Rec.r.andnot : Req("C13", Rec.r.andnot[k].v = SelectSeq(ALL, LAMBDA p : p \notin M), <<Rec.r.andnot[k].how>>)
        /\ Req("C13", Rec.r.first = Prefix(ALL, Rec.stop), <<"for_each_index_compr stopped", Rec.stop, Rec.r.first>>)
        /\ IF Len(Rec.r.count_c11) = 0 THEN TRUE ELSE
           Req("C13", AllAre(Rec.r.count_c11, CountAnd(ToSet(ALL), Decompress(Rec.idx2, ToSet(Rec.a2)))), <<"count of two compressed masks", Rec.r.count_c11>>)
    /\ Done

Slice ==
    /\ Rec.kind = "slice" /\ pos = 0
    /\ \E A \in {ToSet(Rec.a)}, M \in {ToSet(Rec.m)} :
        /\ Req("C13", AllAre(Rec.r.sum_and, SumAnd(Rec.vals, A, M)), <<"sum under two masks", Rec.w, Rec.n, Rec.r.sum_and, SumAnd(Rec.vals, A, M)>>)
        /\ Req("C21", AllAre(Rec.r.values, Rec.vals), <<"stored values", Rec.w, Rec.n>>)
        /\ \A k \in DOMAIN Rec.r.words :
            \E x \in {Rec.r.words[k]} :
            \E W \in {(WordBits * x.w) .. (WordBits * x.w + WordBits - 1)} :
             /\ Req("C13", x.sum = SumAnd(Rec.vals, A, W), <<"sum of a word", Rec.w, x, SumAnd(Rec.vals, A, W)>>)
             /\ Req("C13", x.count = CountAnd(A, W), <<"count of a word", Rec.w, x>>)
             /\ Req("C21", Dist(x.fx * MaxLevel(Rec.w), 64 * (SumAnd(Rec.vals, A, W) * Rec.r.range + CountAnd(A, W) * Rec.r.lo * MaxLevel(Rec.w))) <= MaxLevel(Rec.w),
                    <<"scaled sum of a word", Rec.w, x, Rec.r.lo, Rec.r.range>>)
    /\ Done

SliceC ==
    /\ Rec.kind = "slicec" /\ pos = 0
    /\ \E A \in {ToSet(Rec.a)}, M \in {ToSet(Rec.m)} :
        /\ Req("C13", AllAre(Rec.r.sum_and, SumAndC(Rec.vals, Rec.idx, A, M)), <<"sum under a compressed mask", Rec.w, Rec.r.sum_and, SumAndC(Rec.vals, Rec.idx, A, M)>>)
        /\ IF Len(Rec.r.sum_c11) = 0 THEN TRUE ELSE
           Req("C13", AllAre(Rec.r.sum_c11, SumAndC(Rec.vals, Rec.idx, A, Decompress(Rec.idx2, ToSet(Rec.a2)))), <<"sum under two compressed masks", Rec.w, Rec.r.sum_c11>>)
    /\ Done

\* long sets, in runs
LongAll(name, v) == Req("C13", AllAre(Rec.r[name], v), <<"long sets:", name, Rec.w, Rec.n, Rec.r[name], "is not", v>>)
Long ==
    /\ Rec.kind = "long" /\ pos = 0
    /\ \E AM \in {RunsAnd(Rec.a, Rec.m)} :
       \E CA \in {RunsOrig(Rec.slots, Rec.ca)} :
       \E CM \in {RunsAnd(CA, Rec.m)} :
       \E CC \in {RunsAnd(CA, RunsOrig(Rec.slots2, Rec.ca2))} :
        /\ LongAll("count", RunsSize(Rec.a))
        /\ LongAll("count_and", RunsSize(AM))
        /\ LongAll("count_c", RunsSize(CM))
        /\ LongAll("count_cc", RunsSize(CC))
        /\ LongAll("sum_and", RunsSum(Rec.steps, AM))
        /\ LongAll("sum_c", RunsSum(Rec.steps, RunsSlots(Rec.slots, CM)))
        /\ LongAll("sum_cc", RunsSum(Rec.steps, RunsSlots(Rec.slots, CC)))
        /\ LongAll("all", Rec.a)
        /\ LongAll("and", AM)
        /\ LongAll("andnot", RunsAnd(Rec.a, RunsNot(Rec.m, Rec.n)))
        /\ LongAll("all_c", CA)
        /\ LongAll("and_c", CM)
        /\ LongAll("andnot_c", RunsAnd(CA, RunsNot(Rec.m, BlockBits * Blocks(Rec.n))))
        /\ LongAll("or", RunsOr(Rec.a, Rec.m, Rec.n))
    /\ Done

---------------------------------------------------------------------------
(* single changes of a set of bits *)
SetBits ==
    /\ Rec.kind = "setbits" /\ pos <= Len(Rec.ops)
    /\ IF pos = 0
       THEN st' = IF Rec.ones THEN 0 .. Rec.n - 1 ELSE {}
       ELSE LET op == Rec.ops[pos] IN
            /\ st' = IF op.op \in {"on", "set1"} THEN st \cup {op.k} ELSE st \ {op.k}
            /\ Req("C13", /\ op.size = Cardinality(st') /\ op.has = (op.k \in st')
                          /\ op.sum = FoldSet(+, 0, st') /\ op.max = (IF st' = {} THEN -1 ELSE Max(st')),
                   <<Rec.how, Rec.n, "change", pos, op>>)
    /\ pos' = pos + 1 /\ UNCHANGED tr

SetBitsEnd ==
    /\ Rec.kind = "setbits" /\ pos = Len(Rec.ops) + 1
    /\ Req("C13", Lists(Rec.final, st), <<Rec.how, Rec.n, "the set in the end", Len(Rec.final), Cardinality(st)>>)
    /\ Req("C13", Rec.neighbour = <<>>, <<Rec.how, Rec.n, "a neighbouring set is changed", Rec.neighbour>>)
    /\ Done

(* stores in a bit slice; st[k + 1] is element k *)
SetVals ==
    /\ Rec.kind = "setvals" /\ pos <= Len(Rec.ops)
    /\ LET w == Rec.w IN
       IF pos = 0
       THEN st' = [k \in 1 .. BlockBits * Blocks(Rec.n) |-> 0]
       ELSE LET op == Rec.ops[pos] IN
            IF op.op = "set" THEN st' = [st EXCEPT ![op.k + 1] = op.v]
            ELSE IF op.op = "copy"
            THEN st' = [k \in DOMAIN st |->
                    IF (k - 1) \div WordBits # op.to THEN st[k]
                    ELSE LET j == WordBits * op.from + ((k - 1) % WordBits) + 1 IN IF j <= Rec.n THEN Rec.other[j] ELSE 0]
            ELSE /\ Req("C21", IsNearest(op.v, op.x, Rec.lo, Rec.hi, w), <<Rec.how, w, "bits: not the nearest level", op, Rec.lo, Rec.hi>>)
                 /\ Req("C21", (op.side = -1 => op.v = 0) /\ (op.side = 1 => op.v = 1), <<Rec.how, w, "bits: next to the middle", op, Rec.hi>>)
                 /\ Req("C21", Dist(op.fx * MaxLevel(w), 16 * (Rec.lo * MaxLevel(w) + op.v * (Rec.hi - Rec.lo))) <= MaxLevel(w),
                        <<Rec.how, w, "bits: reads back as", op, Rec.lo, Rec.hi>>)
                 /\ Req("C21", op.v # 0 \/ op.key = Rec.klo, <<Rec.how, w, "bits: the lower bound", op>>)
                 /\ Req("C21", op.v # MaxLevel(w) \/ op.key = Rec.khi, <<Rec.how, w, "bits: the upper bound", op>>)
                 /\ st' = [st EXCEPT ![op.k + 1] = op.v]
    /\ pos' = pos + 1 /\ UNCHANGED tr

SetValsEnd ==
    /\ Rec.kind = "setvals" /\ pos = Len(Rec.ops) + 1
    /\ Req("C21", Rec.final = st, <<Rec.how, Rec.w, "bits: the elements in the end", Rec.n, {k \in DOMAIN st : st[k] # Rec.final[k]}>>)
    /\ Req("C21", Rec.otherafter = Rec.other, <<Rec.how, Rec.w, "bits: the source of a copy changed">>)
    /\ Req("C21", Rec.neighbours = <<BlockBits, BlockBits>>, <<Rec.how, Rec.w, "bits: a neighbour changed", Rec.neighbours>>)
    /\ \A k \in DOMAIN Rec.lin.fx :
        Req("C21", Dist(16 * Rec.lin.fx[k] * MaxLevel(Rec.w), Rec.lin.s * (Rec.hi - Rec.lo) + Rec.lin.c * Rec.lo * MaxLevel(Rec.w)) <= 16 * MaxLevel(Rec.w),
            <<Rec.w, "bits: linproj", Rec.lin, Rec.lo, Rec.hi>>)
    /\ Done

TPanic == Rec.kind = "panic" /\ pos = 0 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos, st>>

TNext == Pair \/ Compr \/ Slice \/ SliceC \/ Long \/ SetBits \/ SetBitsEnd \/ SetVals \/ SetValsEnd \/ TPanic
=============================================================================
