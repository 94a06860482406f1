-------------------------------- MODULE MCPy ---------------------------------
EXTENDS Py, Json
CONSTANTS Ids, MaxOps, Ks
VARIABLES x, hist, nops, last
vars == <<x, hist, nops, last>>
No == [live |-> FALSE, n |-> -1, whole |-> TRUE, ctx |-> New(1)]
Init == x = No /\ hist = << >> /\ nops = 0 /\ last = [op |-> "none", ok |-> TRUE]
Note(op, ok) == hist' = Append(hist, op) /\ nops' = nops + 1 /\ last' = [op |-> op.op, ok |-> ok] /\ nops < MaxOps
Do(op) ==
    /\ ObjSpecified(x, op)
    /\ \E r \in {OnObj(x, op)} :
        /\ x' = r[1]
        /\ Note(IF op.op = "predict" /\ r[2] THEN [op |-> op.op, term |-> Term(r[1].ctx)] ELSE op, r[2])
AllK == 1 .. Len(Settings)
AllIds == 0 .. 9
ManyIds == <<0, 1, 1, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9>>
Nf == 1 .. 3
N == {7, 12, 40}
One == IF nops >= 0 THEN {1} ELSE {}
\* a random element; to be bound with \E .. \in {OneOf(..)}, or it is drawn anew wherever it is used.
\* It depends on the state, or it is drawn only once.
OneOf(S) == RandomElement(IF nops >= 0 THEN S ELSE {})
Sensible(k) == Settings[k].ok /\ Known(k) /\ Settings[k].value # "nope" /\ Settings[k].name # "categorical_features"
NewO == \E nf \in {OneOf(Nf)} : ~x.live /\ x' = NewObj(nf) /\ Note([op |-> "new", nf |-> nf], TRUE)
DataOp == \E n \in {OneOf(N)} : \E d \in {OneOf(-1 .. 6)} :
    \E nf \in {IF d \in {-1, 1} THEN x.ctx.nf + d ELSE x.ctx.nf} : \E ids \in {OneOf([1 .. nf -> Ids])} :
    \E raw \in {OneOf([1 .. nf -> BOOLEAN])} : \E strict \in {OneOf(1 .. 6) > 1} : \E wide \in {OneOf(1 .. 25) = 1} :
        nf > 0 /\ Do([op |-> "data", n |-> n, ids |-> ids, cats |-> [f \in 1 .. nf |-> raw[f] /\ (strict => ids[f] \notin NoCategories)], wide |-> wide])
TargetOp == \E id \in {IF OneOf(1 .. 8) = 1 THEN 10 ELSE OneOf(Ids \ {0, 7})} : \E n \in {IF OneOf(1 .. 12) = 1 THEN 5 ELSE x.n} : \E wide \in {OneOf(1 .. 25) = 1} : Do([op |-> "target", id |-> id, n |-> IF n <= 0 THEN 7 ELSE n, wide |-> wide])
FeatureOp == \E id \in {OneOf(Ids)} : \E cat \in {OneOf(BOOLEAN)} : \E f \in {OneOf(-1 .. x.ctx.nf + 1)} : \E n \in {IF OneOf(1 .. 12) = 1 THEN 41 ELSE x.n} :
    \E wide \in {OneOf(1 .. 25) = 1} : Do([op |-> "feature", f |-> f, id |-> id, n |-> IF n <= 0 THEN 7 ELSE n, cat |-> cat, wide |-> wide])
FieldsOp == \E k \in {OneOf(Ks)} : \E m \in {OneOf(0 .. 2)} : \E ks \in {OneOf([1 .. m -> Ks])} :
    LET all == <<k>> \o ks IN (\A a, b \in DOMAIN all : Settings[all[a]].name = Settings[all[b]].name => a = b) /\ Do([op |-> "fields", ks |-> all])
OkFields == \E k \in {OneOf({k \in Ks : Sensible(k)})} : x.live /\ x.n = -1 /\ Do([op |-> "fields", ks |-> <<k>>])
Train == Do([op |-> "train"])
Predict == Do([op |-> "predict"])
Dealloc == nops > 12 /\ OneOf(1 .. 6) = 1 /\ Do([op |-> "dealloc"])
EstOp ==
    \E n \in {OneOf(N)} : \E nf \in {OneOf(Nf)} : \E ids \in {OneOf([1 .. nf -> Ids])} : \E to \in {OneOf([1 .. nf -> Ids])} : \E y \in {OneOf(Ids \ {0, 7})} :
    \E m \in {OneOf(N \cup {1})} : \E rawc \in {OneOf([1 .. nf -> BOOLEAN])} : \E k \in {OneOf(0 .. 4)} : \E raw \in {OneOf([1 .. k -> Ks])} :
    \E any \in {OneOf(1 .. 6) = 1} : \E wide \in {OneOf(BOOLEAN)} :
    LET cats == [f \in 1 .. nf |-> ids[f] \notin NoCategories /\ to[f] \notin NoCategories /\ rawc[f]]
        Keep(j) == /\ \A i \in 1 .. j - 1 : Settings[raw[i]].name # Settings[raw[j]].name
                   /\ Settings[raw[j]].name # "categorical_features"
                   /\ any \/ Sensible(raw[j])
        ks == [j \in 1 .. Cardinality({i \in 1 .. k : Keep(i)}) |-> raw[CHOOSE i \in 1 .. k : Keep(i) /\ Cardinality({h \in 1 .. i : Keep(h)}) = j]]
        op == [op |-> "est", ks |-> ks, n |-> n, ids |-> ids, cats |-> cats, y |-> y, m |-> m, to |-> to, wide |-> wide]
        r == Fit(op)
    IN /\ EstSpecified(op)
       /\ Note(IF r[2] THEN [op |-> "est", ks |-> ks, n |-> n, ids |-> ids, cats |-> cats, y |-> y, m |-> m, to |-> to, wide |-> wide, term |-> Term(Fitted(op))] ELSE op, r[2])
       /\ UNCHANGED x
GenNext ==
    \/ \E w \in 1 .. 8 : NewO
    \/ \E w \in 1 .. 2 : DataOp
    \/ \E w \in 1 .. 3 : TargetOp
    \/ \E w \in 1 .. 3 : FeatureOp
    \/ \E w \in 1 .. 3 : OkFields
    \/ \E w \in 1 .. 3 : (x.live /\ x.n > 0 /\ Train)
    \/ \E w \in 1 .. 5 : (x.live /\ x.ctx.model # None /\ Predict)
    \/ FieldsOp \/ Dealloc \/ Train \/ Predict
    \/ \E w \in 1 .. 2 : EstOp
Stop == nops = MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<x, hist, last>>
GenSpec == Init /\ [][GenNext \/ Stop]_vars
ASSUME PrintT(<<"GEN", ToJson([settings |-> Settings])>>)
Emit == nops = MaxOps + 1 => PrintT(<<"GEN", ToJson(hist)>>)

(* exhaustive, on few arguments: the methods with every argument                    *)
SmallData == \E n \in {7, 12} : \E nf \in 1 .. 2 : \E i \in [1 .. nf -> Ids] : \E c \in [1 .. nf -> BOOLEAN] : Do([op |-> "data", n |-> n, ids |-> i, cats |-> c, wide |-> FALSE])
SmallTarget == \E id \in Ids : \E n \in {7, 12} : Do([op |-> "target", id |-> id, n |-> n, wide |-> FALSE])
SmallFields == \E a, b \in Ks : Do([op |-> "fields", ks |-> <<a, b>>])
SmallNew == ~x.live /\ x' = NewObj(1) /\ Note([op |-> "new", nf |-> 1], TRUE)
SmallFeature == \E f \in -1 .. 2 : \E id \in Ids : Do([op |-> "feature", f |-> f, id |-> id, n |-> 7, cat |-> FALSE, wide |-> FALSE])
Next == SmallNew \/ SmallData \/ SmallTarget \/ SmallFields \/ SmallFeature \/ Train \/ Predict \/ Do([op |-> "dealloc"])
Spec == Init /\ [][Next]_vars
View == <<x, nops, last>>

(* a method that raises leaves the object as it was, except that data or fields may  *)
(* have been set in part                                                           *)
Raises == [][~last'.ok /\ last'.op \notin {"data", "fields"} => x' = x]_vars
Rows == x.live /\ x.whole /\ x.n > 0 => x.ctx.data.n = x.n
NoData == x.live /\ x.n = -1 => x.ctx.data = None /\ x.ctx.model = None
PredictsModel == [][last'.op = "predict" /\ last'.ok => x.ctx.model # None /\ x.live]_vars
==============================================================================
