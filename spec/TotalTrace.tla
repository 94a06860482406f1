------------------------------ MODULE TotalTrace ------------------------------
EXTENDS Total, Json, IOUtils

CONSTANTS Tags, Loud
VARIABLES tr, pos

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

TInit == tr \in 1 .. Len(Traces) /\ pos = 1
Where == <<Rec.objective, Rec.what, Rec.msg, Rec.config>>
Run ==
    /\ Rec.kind = "total" /\ pos = 1
    /\ Valid(Rec)
    /\ Req("C19", Rec.stage = "done", <<"panics in stage", Rec.stage, Where>>)
    /\ Req("C19", Rec.npred = Rec.n /\ Rec.ntest = Rec.np, <<"number of predictions", Where>>)
    /\ Req("C19", Rec.badtrain = 0 /\ Rec.badtest = 0, <<"predictions that are not finite", Rec.badtrain, Rec.badtest, Where>>)
    /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = 2 /\ UNCHANGED tr
TNext == Run
===============================================================================
