------------------------------ MODULE DataTrace ------------------------------
(* Recorded loading of data: from text (kind "csv": a table of cells is rendered   *)
(* as CSV by the driver) and in memory (kind "mem": columns are set).              *)
EXTENDS Data, Text, Json, IOUtils

CONSTANTS Tags, Loud
VARIABLES tr, pos, cols

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

TInit == tr \in 1 .. Len(Traces) /\ pos = 0 /\ cols = << >>
Accept == PrintT(<<"ACCEPT", tr>>)

Million == 1000000
MaxCat == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 52>>
\* the category that a decimal stands for, or -1
CategoryOf(t) ==
    IF ~IsDecimal(t) THEN -1
    ELSE LET v == FloatValue(t) IN
         IF v[1] = "micro" THEN (IF v[2] >= 0 /\ v[3] /\ v[2] % Million = 0 THEN v[2] \div Million ELSE -1)
         ELSE IF AllDigits(Unsigned(t)) /\ Len(NoZeros(Unsigned(t))) <= 9 THEN IntOf(Unsigned(t))
         ELSE -1    \* negative, or too large
CellOf(t, v) == [k |-> v.k, c |-> CategoryOf(t)]

\* the shown column c has these texts as values, and the description that follows
ShowsValues(texts, c, what) ==
    /\ Req("C09", Len(c.vals) = Len(texts), <<what, "has", Len(c.vals), "values, not", Len(texts)>>)
    /\ \A j \in DOMAIN texts : Req("C09", SameFloat(texts[j], c.vals[j].v), <<what, "value", j, "is", c.vals[j].v, "not", texts[j]>>)
    /\ \A j \in DOMAIN texts : Req("C09", Nearest(texts[j], c.vals[j].near), <<what, "value", j, "is not the float nearest to", texts[j], c.vals[j]>>)
ShowsColumn(vals, d, c, what) ==
    /\ Req("C09", [j \in DOMAIN c.vals |-> c.vals[j].k] = [j \in DOMAIN vals |-> vals[j].k], <<what, "values", c.vals, "not", vals>>)
    /\ Req("C09", <<c.lo, c.hi>> = <<d.lo, d.hi>>, <<what, "limits", c.lo, c.hi, "not", d.lo, d.hi>>)
    /\ Req("C09", c.card = d.card, <<what, "cardinality", c.card, "not", d.card>>)
    /\ Req("C09", c.type = d.type, <<what, "type", c.type, "not", d.type>>)
Shape(got, ncols, n) ==
    /\ Req("C09", got.nfeatures = ncols - 1 /\ got.target = ncols - 1 /\ got.nexamples = n /\ Len(got.cols) = ncols,
           <<"shape", got.nfeatures, got.target, got.nexamples, Len(got.cols), "for", ncols, n>>)
    /\ Req("C09", got.mixed = << >>, <<"rows that are the same differ, or are too few or too many", got.mixed>>)
    /\ Req("C09", got.targets = [j \in DOMAIN got.cols[ncols].vals |-> got.cols[ncols].vals[j].k], <<"the target is not the last column">>)

---------------------------------------------------------------------------
IsCat(j) == \E k \in DOMAIN Rec.cats : Rec.cats[k] = j - 1
Width == IF Rec.has_header THEN Len(Rec.header) ELSE Len(Rec.rows[1])
Problem ==
    IF ~Rec.readable THEN "the input cannot be read"
    ELSE IF Rec.rows = << >> THEN "no records"
    ELSE IF \E k \in DOMAIN Rec.rows : Len(Rec.rows[k]) # Width THEN "ragged"
    ELSE IF \E k \in DOMAIN Rec.rows : \E j \in 1 .. Width : ~IsFloat(Rec.rows[k][j]) THEN "not a number"
    ELSE IF \E j \in 1 .. Width : IsCat(j) /\ \E k \in DOMAIN Rec.rows : CategoryOf(Rec.rows[k][j]) < 0 THEN "not a category"
    ELSE ""
Csv ==
    /\ Rec.kind = "csv" /\ pos = 0
    /\ \E p \in {Problem} :
        /\ Req("C09", Rec.ok = (p = ""), <<"loading", IF Rec.ok THEN "succeeds" ELSE "fails", p, Rec.rows, Rec.header>>)
        /\ IF p # "" THEN TRUE ELSE
            /\ Shape(Rec.got, Width, Rec.n)     \* there may be several rows of a kind
            /\ \A j \in 1 .. Width :
                \E texts \in {[k \in DOMAIN Rec.rows |-> Rec.rows[k][j]]} :
                \E vals \in {[k \in DOMAIN texts |-> CellOf(texts[k], Rec.got.cols[j].vals[k])]} :
                    /\ ShowsValues(texts, Rec.got.cols[j], <<"column", j>>)
                    /\ ShowsColumn(vals, Describe(vals, IsCat(j), Rec.max_nbins), Rec.got.cols[j], <<"column", j, texts>>)
                    /\ Req("C09", Rec.got.cols[j].name = (IF Rec.has_header THEN Rec.header[j] ELSE << >>), <<"column", j, "name", Rec.got.cols[j].name>>)
    /\ Accept /\ pos' = 1 /\ UNCHANGED <<tr, cols>>

---------------------------------------------------------------------------
NCols == Rec.nfeatures + 1
Digit(x) == 48 + (x % 10)
DefaultName(j) == LET i == j - 1 IN                     \* feat0000, feat0001, ... (at most 9999 columns)
    <<102, 101, 97, 116>> \o <<Digit(i \div 1000), Digit(i \div 100), Digit(i \div 10), Digit(i)>>
ShowsAll(got, cs, what) ==
    /\ Shape(got, NCols, Rec.n)
    /\ \A j \in 1 .. NCols : ShowsColumn(cs[j].vals, cs[j].d, got.cols[j], <<what, "column", j>>)
MemStart ==
    /\ Rec.kind = "mem" /\ pos = 0
    /\ cols' = [j \in 1 .. NCols |-> Untouched(Rec.n)]
    /\ ShowsAll(Rec.initial, cols', "in the beginning")
    /\ \A j \in 1 .. NCols : Req("C09", Rec.initial.cols[j].name = DefaultName(j), <<"name of column", j, Rec.initial.cols[j].name>>)
    /\ pos' = 1 /\ UNCHANGED tr
MemStep ==
    /\ Rec.kind = "mem" /\ pos \in 1 .. Len(Rec.ops)
    /\ LET op == Rec.ops[pos] IN
       \E vals \in {[k \in DOMAIN op.texts |-> CellOf(op.texts[k], op.vals[k])]} :
        /\ \A k \in DOMAIN op.texts : SameFloat(op.texts[k], op.vals[k].v)
        /\ Req("C09", op.ok = Settable(vals, op.cat), <<"setting column", op.f, op.cat, op.texts, "gives", op.ok>>)
        /\ cols' = IF Settable(vals, op.cat) THEN [cols EXCEPT ![op.f + 1] = Column(vals, op.cat, Rec.max_nbins)] ELSE cols
        /\ ShowsAll(op.got, cols', <<"after setting", pos>>)
    /\ pos' = pos + 1 /\ UNCHANGED tr
MemEnd == Rec.kind = "mem" /\ pos = Len(Rec.ops) + 1 /\ Accept /\ pos' = pos + 1 /\ UNCHANGED <<tr, cols>>

TPanic == Rec.kind = "panic" /\ pos = 0 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos, cols>>
TNext == Csv \/ MemStart \/ MemStep \/ MemEnd \/ TPanic
==============================================================================
