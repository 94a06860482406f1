-------------------------------- MODULE MCCli --------------------------------
EXTENDS Cli, Json
CONSTANTS MaxArgs
VARIABLES inv, stage, printed, exit
vars == <<inv, stage, printed, exit>>

Nothing == [predictions |-> << >>, metrics |-> << >>]
Args == UNION {{<< >>}, {<<k>> : k \in DOMAIN Pool}, IF MaxArgs < 2 THEN {} ELSE {<<j, k>> : j, k \in DOMAIN Pool}}
Init ==
    /\ inv \in [sub : Subs \cup {"", "trees", "Boost"}, args : Args, train : Files \cup {"none"}, test : Files \cup {"none"}]
    /\ stage = "args" /\ printed = Nothing /\ exit = -1

Fail == stage' = "end" /\ exit' = 1 /\ UNCHANGED <<inv, printed>>
Go(s, ok, next) == stage = s /\ IF ok THEN stage' = next /\ UNCHANGED <<inv, printed, exit>> ELSE Fail
Next ==
    \/ Go("args", ArgsOk(inv), "settings")
    \/ Go("settings", SettingsOk(inv), "names")
    \/ Go("names", NamesOk(inv), "train")
    \/ Go("train", TrainOk(inv), "test")
    \/ Go("test", TestOk(inv), "learn")
    \/ Go("learn", TRUE, "report")
    \/ stage = "report" /\ printed' = Results(inv) /\ exit' = 0 /\ stage' = "end" /\ UNCHANGED inv
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ExitTells == stage = "end" => (exit = 0) = Succeeds(inv)
AllOrNothing == printed # Nothing => exit = 0
\* progress goes up to the last multiple of the frequency
ProgressOk == stage = "report" => LET p == Progress(inv) IN
    /\ \A k \in DOMAIN p : p[k][1] \in 1 .. Iterations(inv) /\ p[k][1] % Frequency(inv) = 0
    /\ (inv.sub # "tree" /\ Frequency(inv) > 0 => Len(p) = (Iterations(inv) \div Frequency(inv)) * Len(Metrics(inv)))
Ends == <>(stage = "end")
Emit == stage = "args" => PrintT(<<"GEN", ToJson([sub |-> inv.sub, args |-> [k \in DOMAIN inv.args |-> inv.args[k]], texts |-> [k \in DOMAIN inv.args |-> Pool[inv.args[k]].text],
                                              train |-> inv.train, test |-> inv.test, header |-> Header(inv), delimiter |-> Delimiter(inv), binary |-> Binary(inv), metrics |-> Metrics(inv), iterations |-> Iterations(inv)])>>)
GenSpec == Init /\ [][FALSE]_vars
\* many arguments, mostly where nothing else fails
LongInit == Init /\ inv.args = << >> /\ inv.sub \in Subs /\ inv.train \in {"good"} /\ inv.test \in {"none", "good"}
More ==
    /\ stage = "args" /\ Len(inv.args) < 6
    /\ \E k \in DOMAIN Pool : (Pool[k].ok \/ Len(inv.args) > 2) /\ inv' = [inv EXCEPT !.args = Append(@, k)]
    /\ UNCHANGED <<stage, printed, exit>>
LongSpec == LongInit /\ [][More]_vars
==============================================================================
