----------------------------- MODULE ConfigTrace -----------------------------
(* Recorded settings. kind "record": fields are set one by one on one             *)
(* configuration, which is shown after each; kind "parse": lines are parsed and    *)
(* the result is a configuration or an error.                                     *)
EXTENDS Config, Json, IOUtils

CONSTANTS Tags, Loud
VARIABLES tr, pos, cfg, err

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

TInit == tr \in 1 .. Len(Traces) /\ pos = 0 /\ cfg = Defaults /\ err = ""

\* the shown configuration is cfg
Same(c, shown, what) ==
    /\ Req("C10", Len(shown) = Len(Fields), <<what, "number of fields", Len(shown)>>)
    /\ \A k \in DOMAIN Fields :
        Req("C10", /\ shown[k].name = Fields[k].name
                   /\ Shows(Fields[k].type, c[k], shown[k].v),
            <<what, "field", Fields[k].name, "should be", c[k], "is", shown[k].name, shown[k].v>>)

Accept == PrintT(<<"ACCEPT", tr>>)
Start ==
    /\ pos = 0 /\ Rec.kind \in {"record", "parse"}
    /\ IF Rec.kind = "record" THEN Same(cfg, Rec.initial, "in the beginning") ELSE TRUE
    /\ pos' = 1 /\ UNCHANGED <<tr, cfg, err>>

(* op: field (the name as text, "?" when it is none) , name, value: codes *)
RecordStep ==
    /\ Rec.kind = "record" /\ pos \in 1 .. Len(Rec.ops)
    /\ LET op == Rec.ops[pos] IN
       \E res \in {Set(cfg, FieldNo(op.field), op.value)} :
        /\ cfg' = res[1]
        /\ Req("C10", op.ok = (res[2] = ""), <<"setting", op.field, op.value, "gives", op.ok, res[2]>>)
        /\ Same(cfg', op.shown, <<"after setting", op.field, op.value>>)
        /\ (IF op.ok THEN TRUE ELSE Req("C10", Holds(op.err, op.name), <<"the error does not name", op.field, op.value>>))
    /\ pos' = pos + 1 /\ UNCHANGED <<tr, err>>
RecordEnd == Rec.kind = "record" /\ pos = Len(Rec.ops) + 1 /\ Accept /\ pos' = pos + 1 /\ UNCHANGED <<tr, cfg, err>>

(* line: text; field: the field named before the first '=' *)
ParseStep ==
    /\ Rec.kind = "parse" /\ pos \in 1 .. Len(Rec.lines)
    /\ LET l == Rec.lines[pos] IN
       IF err # "" THEN UNCHANGED <<cfg, err>>
       ELSE IF ~Has(l.text, 61) THEN err' = "line" /\ UNCHANGED cfg
       ELSE LET at == First(l.text, 61)
                name == Trim(SubSeq(l.text, 1, at - 1))
                value == Trim(SubSeq(l.text, at + 1, Len(l.text)))
            IN \E res \in {Set(cfg, IF name = l.fcodes THEN FieldNo(l.field) ELSE 0, value)} : cfg' = res[1] /\ err' = res[2]
    /\ IF err = "" /\ err' # ""
       THEN /\ Req("C10", ~Rec.ok, <<"line", Rec.lines[pos].field, Rec.lines[pos].text, "is accepted", err'>>)
            /\ Req("C10", Holds(Rec.err, IF err' = "line" THEN Trim(Rec.lines[pos].text) ELSE Trim(SubSeq(Rec.lines[pos].text, 1, First(Rec.lines[pos].text, 61) - 1))),
                   <<"the error does not name the problem in", Rec.lines[pos].text, err'>>)
       ELSE TRUE
    /\ pos' = pos + 1 /\ UNCHANGED tr
ParseEnd ==
    /\ Rec.kind = "parse" /\ pos = Len(Rec.lines) + 1
    /\ Req("C10", Rec.ok = (err = ""), <<"lines", [k \in DOMAIN Rec.lines |-> Rec.lines[k].text], "are rejected">>)
    /\ IF err = "" THEN Same(cfg, Rec.shown, <<"after parsing", [k \in DOMAIN Rec.lines |-> Rec.lines[k].text]>>) ELSE TRUE
    /\ Accept /\ pos' = pos + 1 /\ UNCHANGED <<tr, cfg, err>>

TPanic == Rec.kind = "panic" /\ pos = 0 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos, cfg, err>>
TNext == Start \/ RecordStep \/ RecordEnd \/ ParseStep \/ ParseEnd \/ TPanic
==============================================================================
