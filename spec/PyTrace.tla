------------------------------- MODULE PyTrace -------------------------------
(* Recorded use of the Python classes: kind "py". ok: the method returned; preds:     *)
(* its result; native: what the library gives. Kind "table": the table of settings,   *)
(* written by the library (rows) and shipped with the classes, as bytes.             *)
EXTENDS Py, Json, IOUtils
C == INSTANCE Config

CONSTANTS Tags, Loud
VARIABLES tr, pos, x

Traces == ndJsonDeserialize(IOEnv.TRACE)
Rec == Traces[tr]
Req(tag, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT(<<"REJECT", Rec.kind, Rec.tr, tag, msg>>) /\ FALSE

Nothing == [live |-> FALSE, n |-> -1, whole |-> TRUE, ctx |-> New(1)]
TInit == tr \in 1 .. Len(Traces) /\ pos = 1 /\ x = Nothing
Op == Rec.ops[pos]
Predicted(op, term) ==
    /\ op.term = term
    /\ Req("C22", op.nativerows = term.data.n, <<"call", pos, "the library cannot do this:", op.nativeerr>>)
    /\ Req("C22", op.preds = op.native, <<"call", pos, op.op, "predictions", op.preds, "are not those of the library", op.native, term>>)
Returns(ok) ==
    /\ Req("C22", Op.ok = ok, <<"call", pos, Op.op, IF ok THEN "raises" ELSE "returns", Op.err, Op>>)
    /\ Req("C22", Op.err # "changed its argument", <<"call", pos, Op.op, Op.err>>)
Step ==
    /\ Rec.kind = "py" /\ pos <= Len(Rec.ops)
    /\ IF Op.op = "new" THEN x' = NewObj(Op.nf) /\ Returns(TRUE)
       ELSE IF Op.op = "est"
       THEN \E r \in {Fit(Op)} : Returns(r[2]) /\ (IF r[2] THEN Predicted(Op, Term(Fitted(Op))) ELSE TRUE) /\ UNCHANGED x
       ELSE \E unsure \in {Op.op = "train" /\ x.live /\ Unsure(x.ctx) /\ Op.ok} :
            \E r \in {IF unsure THEN <<[x EXCEPT !.ctx.model = Unknown], TRUE>> ELSE OnObj(x, Op)} :
            /\ x' = r[1]
            /\ Returns(r[2])
            /\ IF r[2] /\ Op.op = "predict" /\ x.ctx.model # Unknown THEN Predicted(Op, Term(r[1].ctx)) ELSE TRUE
    /\ pos' = pos + 1 /\ UNCHANGED tr
End == Rec.kind = "py" /\ pos = Len(Rec.ops) + 1 /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = pos + 1 /\ UNCHANGED <<tr, x>>

(* comma separated values with quotes (RFC 4180; a quote within quotes is doubled):    *)
(* state: finished rows, cells of this row, this cell, within quotes?                 *)
RECURSIVE Csv(_, _, _, _, _, _)
Csv(t, k, rows, cells, cell, quoted) ==
    IF k > Len(t) THEN IF cells = << >> /\ cell = << >> THEN rows ELSE Append(rows, Append(cells, cell))
    ELSE IF quoted
    THEN IF t[k] = 34 THEN IF k < Len(t) /\ t[k + 1] = 34 THEN Csv(t, k + 2, rows, cells, Append(cell, 34), TRUE) ELSE Csv(t, k + 1, rows, cells, cell, FALSE)
         ELSE Csv(t, k + 1, rows, cells, Append(cell, t[k]), TRUE)
    ELSE IF t[k] = 34 THEN Csv(t, k + 1, rows, cells, cell, TRUE)
    ELSE IF t[k] = 44 THEN Csv(t, k + 1, rows, Append(cells, cell), << >>, FALSE)
    ELSE IF t[k] = 10 THEN Csv(t, k + 1, Append(rows, Append(cells, cell)), << >>, << >>, FALSE)
    ELSE IF t[k] = 13 THEN Csv(t, k + 1, rows, cells, cell, FALSE)
    ELSE Csv(t, k + 1, rows, cells, Append(cell, t[k]), FALSE)

PyTrue == <<84, 114, 117, 101>>
PyFalse == <<70, 97, 108, 115, 101>>
Str == <<83, 116, 114, 105, 110, 103>>
VecOf == <<86, 101, 99>>
\* what a default of the table means, as one would write it in a setting
Means(type, cell) ==
    CASE type = "bool" -> IF cell = PyTrue THEN C!True ELSE IF cell = PyFalse THEN C!False ELSE <<63>>
      [] type \in {"texts", "u64s"} -> IF Len(cell) >= 2 /\ cell[1] = 91 /\ cell[Len(cell)] = 93 THEN SubSeq(cell, 2, Len(cell) - 1) ELSE <<63>>
      [] OTHER -> cell
Row(k, row) ==
    LET f == C!Fields[k] IN
    /\ Req("C22", Len(row) = 4, <<"row", k, row>>)
    /\ Req("C22", row[1] = Rec.names[k].codes /\ Rec.names[k].name = f.name, <<"row", k, "is not about", f.name, row[1]>>)
    /\ Req("C22", C!Valid(f.type, Means(f.type, row[2])), <<"default of", f.name, row[2]>>)
    /\ Req("C22", LET v == C!Value(f.type, Means(f.type, row[2])) IN IF f.type = "real" THEN C!Shows(f.type, v, Rec.defaults[k].v) ELSE v = Rec.defaults[k].v, <<"default of", f.name, row[2], "but it is", Rec.defaults[k].v>>)
    /\ Req("C22", (row[3] = Str) = (f.type = "text") /\ (Len(row[3]) > 3 /\ SubSeq(row[3], 1, 3) = VecOf) = (f.type \in {"texts", "u64s"}), <<"type of", f.name, row[3]>>)
    /\ Req("C22", Len(row[4]) > 0 /\ C!Holds(row[4], Rec.clionly) = (f.name \in CliOnly), <<"description of", f.name, row[4]>>)
Table(rows, what) ==
    /\ Req("C22", Len(rows) = Len(C!Fields) + 1, <<what, "rows", Len(rows)>>)
    /\ Req("C22", rows[1] = Rec.header, <<what, "header", rows[1]>>)
    /\ \A k \in DOMAIN C!Fields : Row(k, rows[k + 1])
TTable ==
    /\ Rec.kind = "table" /\ pos = 1
    /\ \E rows \in {Csv(Rec.written, 1, << >>, << >>, << >>, FALSE)} : Table(rows, "the table written has")
    /\ \E rows \in {Csv(Rec.shipped, 1, << >>, << >>, << >>, FALSE)} : Table(rows, "the table shipped has")
    /\ PrintT(<<"ACCEPT", tr>>) /\ pos' = 2 /\ UNCHANGED <<tr, x>>
TPanic == Rec.kind = "panic" /\ pos = 1 /\ PrintT(<<"REJECT", "panic", Rec.tr, "ALL", Rec.msg>>) /\ FALSE /\ UNCHANGED <<tr, pos, x>>
TNext == Step \/ End \/ TTable \/ TPanic
==============================================================================
