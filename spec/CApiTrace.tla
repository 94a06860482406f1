------------------------------ MODULE CApiTrace ------------------------------
(* Recorded calls of the C interface. `preds` of a predict call: what it wrote;     *)
(* `native`: what the library gives for the term of the call; `untouched`: the       *)
(* buffer is as it was.                                                            *)
EXTENDS CApi, Json, IOUtils

CONSTANTS Tags, Loud
VARIABLES tr, pos, st

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

TInit == tr \in 1 .. Len(Traces) /\ pos = 1 /\ st = << >>
Op == Rec.ops[pos]
Step ==
    /\ Rec.kind = "capi" /\ pos <= Len(Rec.ops)
    /\ Specified(st, Op)
    /\ \E unsure \in {Op.op = "train" /\ (IF Op.op = "train" THEN Unsure(st[Op.c]) ELSE FALSE) /\ Op.ret = 0} :
       \E r \in {IF unsure THEN <<[st EXCEPT ![Op.c].model = Unknown], 0>> ELSE Result(st, Op)} :
        /\ st' = r[1]
        /\ Req("C11", Op.ret = r[2], <<"call", pos, Op.op, Op, "returns", Op.ret, "not", r[2]>>)
        /\ IF Op.op # "predict" THEN TRUE
           ELSE IF r[2] = -1 THEN Req("C11", Op.untouched, <<"call", pos, "a failed prediction writes to the buffer">>)
           ELSE IF st[Op.c].model = Unknown THEN TRUE
           ELSE /\ Op.term = Term(st[Op.c])
                /\ Req("C11", Op.nativerows = Op.term.data.n, <<"call", pos, "the library cannot do this:", Op.nativeerr>>)
                /\ Req("C11", Op.preds = Op.native, <<"call", pos, "predictions of context", Op.c, Op.preds, "are not those of the library", Op.native, Op.term>>)
    /\ pos' = pos + 1 /\ UNCHANGED tr
End ==
    /\ Rec.kind = "capi" /\ pos = Len(Rec.ops) + 1
    /\ Req("C11", Rec.nbytes = 4, <<"bb_get_numt_nbytes", Rec.nbytes>>)
    /\ Req("C11", Rec.parallel, <<"the calls give other results when each context is used by its own thread">>)
    /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = pos + 1 /\ UNCHANGED <<tr, st>>
TPanic == Rec.kind = "panic" /\ pos = 1 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos, st>>
TNext == Step \/ End \/ TPanic
==============================================================================
