--------------------------------- MODULE Py ----------------------------------
(* The Python classes. A method of RawBitBoost is a sequence of calls of the C      *)
(* interface on the context of the object; it raises an exception when it refuses   *)
(* its arguments or when one of the calls fails. The estimator makes an object,     *)
(* gives it all parameters, and fits and predicts with it.                         *)
EXTENDS CApi

\* settings of the command line tool are none of the classes
CliOnly == {"train", "test", "csv_has_header", "csv_delimiter"}
Names == {Settings[k].name : k \in {j \in DOMAIN Settings : Settings[j].ok}} \cup {"metric_frequency"}
Known(k) == Settings[k].name \in Names \ CliOnly

(* an object: live until it is deallocated; n: rows of the data, -1 before there     *)
(* are any; whole: the last set_data did not fail half-way                          *)
NewObj(nf) == [live |-> TRUE, n |-> -1, whole |-> TRUE, ctx |-> New(nf)]

\* what the class does not pass on
Refuses(x, op) ==
    CASE op.op = "fields" -> FALSE
      [] op.op = "data" -> Len(op.ids) # x.ctx.nf \/ op.wide
      [] op.op = "target" -> op.wide \/ op.n # x.n
      [] op.op = "feature" -> op.wide \/ op.n # x.n \/ op.f \notin 0 .. x.ctx.nf
      [] op.op = "predict" -> x.n <= 0
      [] OTHER -> FALSE
Sets(ids, cats) == [f \in DOMAIN ids |-> [op |-> "set", f |-> f - 1, id |-> ids[f], cat |-> cats[f]]]
Calls(x, op) ==
    CASE op.op = "fields" -> [k \in DOMAIN op.ks |-> [op |-> "config", k |-> op.ks[k]]]
      [] op.op = "data" -> <<[op |-> "refresh", n |-> op.n]>> \o Sets(op.ids, op.cats)
      [] op.op = "target" -> <<[op |-> "set", f |-> x.ctx.nf, id |-> op.id, cat |-> FALSE]>>
      [] op.op = "feature" -> <<[op |-> "set", f |-> op.f, id |-> op.id, cat |-> op.cat]>>
      [] op.op = "train" -> <<[op |-> "train"]>>
      [] op.op = "predict" -> <<[op |-> "predict"]>>
\* the calls up to the first that fails: <<context, did all succeed?>>
RECURSIVE Run(_, _)
Run(c, calls) ==
    IF calls = << >> THEN <<c, TRUE>>
    ELSE IF Head(calls).op = "config" /\ ~Known(Head(calls).k) THEN <<c, FALSE>>
    ELSE LET r == OnCtx(c, Head(calls)) IN IF r[2] # 0 THEN <<c, FALSE>> ELSE Run(r[1], Tail(calls))

(* <<the object after the method, does it return?>>                                *)
OnObj(x, op) ==
    IF ~x.live THEN <<x, FALSE>>
    ELSE IF op.op = "dealloc" THEN <<[x EXCEPT !.live = FALSE], TRUE>>
    ELSE IF Refuses(x, op) THEN <<x, FALSE>>
    ELSE LET r == Run(x.ctx, Calls(x, op)) IN
         <<[x EXCEPT !.ctx = r[1], !.n = IF op.op = "data" THEN op.n ELSE @, !.whole = IF op.op = "data" THEN r[2] ELSE @], r[2]>>

(* An estimator: parameters ks, fitted to columns ids of n rows, those in cats       *)
(* categorical, with target y; then predicts m rows of columns to.                  *)
Fit(op) ==
    LET c0 == New(Len(op.ids))
    IN Run(c0, [k \in DOMAIN op.ks |-> [op |-> "config", k |-> op.ks[k]]] \o <<[op |-> "refresh", n |-> op.n]>> \o Sets(op.ids, op.cats)
               \o <<[op |-> "set", f |-> Len(op.ids), id |-> op.y, cat |-> FALSE], [op |-> "train"]>>)
Fitted(op) == Run(Fit(op)[1], <<[op |-> "refresh", n |-> op.m]>> \o Sets(op.to, [f \in DOMAIN op.to |-> FALSE]))[1]
\* the data on which training is specified, see CApi
EstSpecified(op) ==
    LET known == \A k \in DOMAIN op.ks : Known(op.ks[k]) /\ Settings[op.ks[k]].ok IN
    /\ \A f \in DOMAIN op.ids : ~(op.cats[f] /\ op.ids[f] \in NoCategories)
    /\ known => \E f \in DOMAIN op.ids : op.ids[f] \in Varied
    /\ \A f \in DOMAIN op.to : op.cats[f] => op.to[f] \in {0, 1, 5, 6, 7}

ObjSpecified(x, op) ==
    IF ~x.live THEN TRUE
    ELSE IF ~x.whole THEN op.op \in {"data", "dealloc", "fields"}
    ELSE IF op.op \in {"train", "predict"} THEN Specified(<<x.ctx>>, [op |-> op.op, c |-> 1])
    ELSE TRUE
==============================================================================
