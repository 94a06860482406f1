------------------------------ MODULE LossTrace ------------------------------
(* Recorded calls of objectives (a state machine: initialise, then update and    *)
(* for each row one leaf or out-of-bag update) and metrics, against Loss.        *)
EXTENDS Loss, Json, IOUtils

CONSTANTS Tags, Loud
VARIABLES tr, pos, preds, grads, delta, width

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

TInit == tr \in 1 .. Len(Traces) /\ pos = 1 /\ preds = << >> /\ grads = << >> /\ delta = 0 /\ width = 0

Call == Rec.calls[pos]
Obj == Rec.name
Ts == Rec.targets
N == Len(Ts)
Kinds == Rec.w # << >>    \* a "row" is a kind of rows, Rec.w how many there are

Initialize ==
    /\ Call.op = "init"
    /\ Req("C14", IF Kinds THEN WBiasOk(Obj, Ts, Rec.w, Call.bias) ELSE BiasOk(Obj, Ts, Call.bias), <<Obj, "bias", Call.bias, Ts>>)
    /\ Req("C14", Call.preds = [i \in 1 .. N |-> Call.bias], <<Obj, "initial predictions are not the bias", Call.bias, Call.preds>>)
    /\ Req("C14", Rec.mixed = << >>, <<Obj, "rows that are the same differ", Rec.mixed>>)
    /\ Req("C14", Call.same, <<Obj, "name">>)
    /\ UNCHANGED <<grads, delta, width>>

Errs == [i \in 1 .. N |-> Ts[i] - preds[i]]
Update ==
    /\ Call.op = "update"
    /\ Req("C14", Call.preds = preds, <<Obj, "update changes the predictions">>)
    /\ Req("C14", IF Kinds THEN WBoundsOk(Obj, Errs, Rec.w, Call.lo, Call.hi, Rec.pct, Rec.bgb) ELSE BoundsOk(Obj, Errs, Call.lo, Call.hi, Rec.pct, Rec.bgb), <<Obj, "call", pos, "bounds", Call.lo, Call.hi, Errs>>)
    /\ \A i \in 1 .. N : Req("C14", GradientOk(Obj, Ts[i], preds[i], Call.hi, Call.grads[i]), <<Obj, "call", pos, "gradient of", i, "target", Ts[i], "prediction", preds[i], "is", Call.grads[i], "delta", Call.hi>>)
    /\ grads' = Call.grads /\ delta' = Call.hi /\ width' = BinWidth(Errs)

Sel(s, ex) == [k \in DOMAIN ex |-> s[ex[k] + 1]]
Leaf ==
    /\ Call.op = "leaf"
    /\ Req("C14", IF Kinds THEN WLeafOk(Obj, Sel(Ts, Call.ex), Sel(preds, Call.ex), Sel(grads, Call.ex), Sel(Rec.w, Call.ex), delta, width, Rec.num, Rec.den, Call.v)
                       ELSE LeafOk(Obj, Sel(Ts, Call.ex), Sel(preds, Call.ex), Sel(grads, Call.ex), delta, width, Rec.num, Rec.den, Call.v),
           <<Obj, "call", pos, "leaf value", Call.v, "learning rate", Rec.num, Rec.den, "targets", Sel(Ts, Call.ex), "predictions", Sel(preds, Call.ex), "gradients", Sel(grads, Call.ex), delta, width>>)
    /\ Req("C14", \A i \in 1 .. N : IF i - 1 \in ToSet(Call.ex) THEN Near(Call.preds[i], preds[i] + Call.v, 8) ELSE Call.preds[i] = preds[i],
           <<Obj, "call", pos, "predictions after a leaf", Call.ex, Call.v, preds, Call.preds>>)
    /\ UNCHANGED <<grads, delta, width>>
Oob ==
    /\ Call.op = "oob"
    /\ Req("C14", \A i \in 1 .. N : IF i - 1 = Call.i THEN Near(Call.preds[i], preds[i] + Call.v, 8) ELSE Call.preds[i] = preds[i],
           <<Obj, "call", pos, "predictions after an out-of-bag update", Call.i, Call.v>>)
    /\ UNCHANGED <<grads, delta, width>>

Step == Rec.kind = "obj" /\ pos <= Len(Rec.calls) /\ (Initialize \/ Update \/ Leaf \/ Oob) /\ preds' = Call.preds /\ pos' = pos + 1 /\ UNCHANGED tr
End == Rec.kind = "obj" /\ pos = Len(Rec.calls) + 1 /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = pos + 1 /\ UNCHANGED <<tr, preds, grads, delta, width>>

MetricStep ==
    /\ Rec.kind = "metric" /\ pos = 1
    /\ \A k \in DOMAIN Rec.values :
        Req("C15", IF Kinds THEN WMetricOk(Rec.values[k].m, Rec.targets, Rec.preds, Rec.w, Rec.values[k].x) ELSE MetricOk(Rec.values[k].m, Rec.targets, Rec.preds, Rec.values[k].x), <<Rec.values[k].m, "is", Rec.values[k].x, Rec.targets, Rec.preds>>)
    /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = 2 /\ UNCHANGED <<tr, preds, grads, delta, width>>

(* asked: names in any case, as asked for; lower: in lower case; got: the names of the metrics, or <<"none">> *)
Names ==
    /\ Rec.kind = "names" /\ pos = 1
    /\ LET want == [k \in DOMAIN Rec.lower |-> NameOf(MetricNames, Rec.lower[k])] IN
       Req("C15", Rec.got = (IF \E k \in DOMAIN want : want[k] = "" THEN <<"none">> ELSE want), <<"metrics", Rec.asked, "give", Rec.got>>)
    /\ \A k \in DOMAIN Rec.one : Req("C15", Rec.one[k] = NameOf(MetricNames, Rec.lower[k]), <<"metric", Rec.asked[k], "gives", Rec.one[k]>>)
    /\ \A k \in DOMAIN Rec.obj :
        /\ Req("C14", Rec.obj[k].got = NameOf(ObjectiveNames, Rec.obj[k].lower), <<"objective", Rec.obj[k]>>)
        /\ Req("C15", Rec.obj[k].metric = NameOf(MetricOfObjective, Rec.obj[k].lower), <<"metric of an objective", Rec.obj[k]>>)
    /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = 2 /\ UNCHANGED <<tr, preds, grads, delta, width>>

TPanic == Rec.kind = "panic" /\ pos = 1 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos, preds, grads, delta, width>>

TNext == Step \/ End \/ MetricStep \/ Names \/ TPanic
==============================================================================
