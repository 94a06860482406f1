------------------------------- MODULE CliTrace ------------------------------
(* Recorded runs of the command line tool. lib: what the library gives for the     *)
(* same settings and files; numbers printed as metrics: <<digits, exponent>>.       *)
EXTENDS Cli, Json, IOUtils

CONSTANTS Tags, Loud
VARIABLES tr, pos

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

TInit == tr \in 1 .. Len(Traces) /\ pos = 1
Dist(x, y) == IF x < y THEN y - x ELSE x - y
\* five digits and an exponent; what is below 10^-6 is rounding
SameNumber(a, b) ==
    \/ a[2] < -6 /\ b[2] < -6
    \/ a[1] = 0 /\ b[2] < -6
    \/ b[1] = 0 /\ a[2] < -6
    \/ a[2] = b[2] /\ Dist(a[1], b[1]) <= 3
    \/ a[2] = b[2] + 1 /\ Dist(10 * a[1], b[1]) <= 30
    \/ b[2] = a[2] + 1 /\ Dist(10 * b[1], a[1]) <= 30

Inv == Rec.inv
Where == <<Inv.sub, Inv.texts, "train", Inv.train, "test", Inv.test>>
Cli ==
    /\ Rec.kind = "cli" /\ pos = 1
    /\ Inv.texts = [k \in DOMAIN Inv.args |-> Pool[Inv.args[k]].text]
    /\ IF ~Succeeds(Inv)
       THEN /\ Req("C20", Rec.exit \notin {0, 101} /\ Rec.exit > 0, <<Where, "exit status", Rec.exit>>)
            /\ Req("C20", Rec.error, <<Where, "no error message">>)
            /\ Req("C20", Rec.predictions = << >> /\ Rec.metrics = << >>, <<Where, "fails but prints results">>)
       ELSE /\ Req("C20", Rec.exit = 0, <<Where, "exit status", Rec.exit, Rec.stderr>>)
            /\ Rec.lib.ok
            /\ Req("C20", [k \in DOMAIN Rec.predictions |-> Rec.predictions[k].set] = Results(Inv).predictions, <<Where, "prints predictions for", [k \in DOMAIN Rec.predictions |-> Rec.predictions[k].set]>>)
            /\ \A k \in DOMAIN Rec.predictions :
                Req("C20", Rec.predictions[k].v = (IF Rec.predictions[k].set = "train" THEN Rec.lib.train ELSE Rec.lib.test),
                    <<Where, "predictions for", Rec.predictions[k].set, Rec.predictions[k].v, "library", Rec.lib.train, Rec.lib.test>>)
            /\ Req("C20", [k \in DOMAIN Rec.metrics |-> [name |-> Rec.metrics[k].name, sets |-> [j \in DOMAIN Rec.metrics[k].v |-> Rec.metrics[k].v[j].set]]] = Results(Inv).metrics,
                   <<Where, "prints metrics", Rec.metrics, "not", Results(Inv).metrics>>)
            /\ \A k \in DOMAIN Rec.metrics : \A j \in DOMAIN Rec.metrics[k].v :
                Req("C20", SameNumber(Rec.metrics[k].v[j].x, (IF Rec.metrics[k].v[j].set = "train" THEN Rec.lib.mtrain ELSE Rec.lib.mtest)[k]),
                    <<Where, "metric", Rec.metrics[k], "library", Rec.lib.mtrain, Rec.lib.mtest>>)
            /\ Req("C20", [k \in DOMAIN Rec.progress |-> Rec.progress[k].name] = [k \in DOMAIN Progress(Inv) |-> Progress(Inv)[k][2]],
                   <<Where, "progress", Rec.progress, "not", Progress(Inv)>>)
            /\ \A k \in DOMAIN Rec.progress :
                LET p == Progress(Inv)[k]
                    m == CHOOSE m \in DOMAIN Metrics(Inv) : Metrics(Inv)[m] = p[2]
                IN /\ Req("C20", Rec.progress[k].it = p[1], <<Where, "progress after iteration", Rec.progress[k].it, "not", p[1]>>)
                   /\ Req("C20", SameNumber(Rec.progress[k].x, Rec.lib.mprogress[p[1]][m]), <<Where, "progress", p, Rec.progress[k], "library", Rec.lib.mprogress[p[1]]>>)
    /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = 2 /\ UNCHANGED tr
TPanic == Rec.kind = "panic" /\ pos = 1 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos>>
TNext == Cli \/ TPanic
==============================================================================
