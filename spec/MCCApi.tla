------------------------------- MODULE MCCApi --------------------------------
EXTENDS CApi, Json
CONSTANTS Contexts, MaxOps, Ks, Ids, Ns, Nfs
VARIABLES st, nops, hist, last
vars == <<st, nops, hist, last>>

Init == st = << >> /\ nops = 0 /\ hist = << >> /\ last = [op |-> "none", c |-> 0, ret |-> 0]

Live == DOMAIN st
Do(op) ==
    /\ Specified(st, op)
    /\ \E r \in {Result(st, op)} :
        /\ st' = r[1]
        /\ last' = [op |-> op.op, c |-> IF op.op = "null" THEN 0 ELSE op.c, ret |-> r[2]]
        /\ hist' = Append(hist, IF op.op = "predict" THEN [op |-> op.op, c |-> op.c, term |-> Term(st[op.c])] ELSE op)
    /\ nops' = nops + 1
    /\ nops < MaxOps

Setting == [k \in 1 .. Len(Settings) |-> [name |-> Settings[k].name, value |-> Settings[k].value]]
AllK == 1 .. Len(Settings)
AllIds == 0 .. 10
MCNs == {-1, 0, 7, 12, 40}
MCNfs == {-1, 0, 1, 2, 3}
Alloc == \E c \in Contexts \ Live : \E nf \in IF nops >= 0 THEN Nfs ELSE {} : Do([op |-> "alloc", c |-> c, nf |-> nf])
Dealloc == \E c \in Live : nops > 3 /\ Do([op |-> "dealloc", c |-> c])
Config == \E c \in Live : \E k \in Ks : Do([op |-> "config", c |-> c, k |-> k, name |-> Settings[k].name, value |-> Settings[k].value])
ConfigFirst == \E c \in Live : \E k \in Ks : st[c].data = None /\ Settings[k].ok /\ Do([op |-> "config", c |-> c, k |-> k, name |-> Settings[k].name, value |-> Settings[k].value])
Refresh == \E c \in Live : \E n \in Ns : Do([op |-> "refresh", c |-> c, n |-> n])
SetCol == \E c \in Live : \E f \in -1 .. st[c].nf + 1 : \E id \in Ids : \E cat \in BOOLEAN : Do([op |-> "set", c |-> c, f |-> f, id |-> id, cat |-> cat])
SetGood == \E c \in Live : \E f \in 0 .. st[c].nf : \E id \in Ids : \E cat \in BOOLEAN : st[c].data # None /\ Do([op |-> "set", c |-> c, f |-> f, id |-> id, cat |-> cat])
Train == \E c \in Live : Do([op |-> "train", c |-> c])
TrainGood == \E c \in Live : st[c].data # None /\ Do([op |-> "train", c |-> c])
Predict == \E c \in Live : Do([op |-> "predict", c |-> c])
PredictGood == \E c \in Live : st[c].model # None /\ Do([op |-> "predict", c |-> c])
NullPtr == \E f \in {"dealloc", "refresh", "set", "config", "train", "predict"} : Do([op |-> "null", f |-> f])

Next == Alloc \/ Dealloc \/ Config \/ Refresh \/ SetCol \/ Train \/ Predict \/ NullPtr
Spec == Init /\ [][Next]_vars
\* for generation: calls that get somewhere are more likely. A constant quantifier stands for as
\* many actions, of which a simulation takes each with the same probability.
One == IF nops >= 0 THEN {1} ELSE {}
Rare(a) == \E x \in One : a
GenConfig == \E c \in Live : \E k \in Ks : st[c].data = None /\ Do([op |-> "config", c |-> c, k |-> k, name |-> Settings[k].name, value |-> Settings[k].value])
GenFirstData == \E c \in Live : \E n \in Ns : n > 0 /\ st[c].data = None /\ Len(st[c].cfg) > 1 /\ Do([op |-> "refresh", c |-> c, n |-> n])
GenSet == \E c \in Live : \E f \in 0 .. st[c].nf : \E id \in Ids \ {0} : \E cat \in BOOLEAN :
            st[c].data # None /\ ~(cat /\ id \in NoCategories) /\ Do([op |-> "set", c |-> c, f |-> f, id |-> id, cat |-> cat])
GenTarget == \E c \in Live : \E id \in Varied : st[c].data # None /\ Do([op |-> "set", c |-> c, f |-> st[c].nf, id |-> id, cat |-> FALSE])
GenTrain == \E c \in Live : st[c].data # None /\ ~Unsure(st[c]) /\ Do([op |-> "train", c |-> c])
\* a training that fails, of a context with a model: the model is kept
GenSpoil == \E c \in Live : st[c].model # None /\ st[c].data # None /\ (\E f \in {st[c].nf} : Do([op |-> "set", c |-> c, f |-> f, id |-> 10, cat |-> FALSE]))
GenUnsure == \E c \in Live : st[c].model # None /\ Unsure(st[c]) /\ last.op # "train" /\ Do([op |-> "train", c |-> c])
GenPredict == \E c \in Live : st[c].model # None /\ Do([op |-> "predict", c |-> c])
GenNext ==
    \/ Alloc \/ Config \/ Refresh \/ SetCol \/ Train \/ Predict \/ Rare(nops > 3 /\ nops % 3 = 0 /\ NullPtr) \/ Rare(\E c \in Live : nops > 20 /\ Do([op |-> "dealloc", c |-> c]))
    \/ \E w \in 1 .. 6 : GenConfig
    \/ \E w \in 1 .. 5 : GenFirstData
    \/ \E w \in 1 .. 10 : GenSet
    \/ \E w \in 1 .. 5 : GenTarget
    \/ \E w \in 1 .. 3 : Alloc
    \/ \E w \in 1 .. 8 : GenTrain
    \/ \E w \in 1 .. 8 : GenPredict
    \/ \E w \in 1 .. 2 : GenSpoil
    \/ \E w \in 1 .. 6 : GenUnsure
Stop == nops = MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<st, hist, last>>
GenSpec == Init /\ [][GenNext \/ Stop]_vars

View == <<st, nops, last>>
\* what can be predicted in the end
Rest == [c \in {x \in Live : Specified(st, [op |-> "predict", c |-> x])} |-> [op |-> "predict", c |-> c, term |-> Term(st[c])]]
Emit == nops = MaxOps + 1 => PrintT(<<"GEN", ToJson(hist \o SetToSeq({Rest[c] : c \in DOMAIN Rest}))>>)

(* the protocol *)
ModelNeedsData == \A c \in Live : st[c].model # None => st[c].data # None /\ Useful(st[c].model.data) /\ ConfigTrainable(st[c].model.cfg)
AcceptedOnly == \A c \in Live : \A k \in DOMAIN st[c].cfg : Settings[st[c].cfg[k]].ok
FrozenConfig == [][\A c \in Live \cap DOMAIN st' : st[c].data # None => st'[c].cfg = st[c].cfg]_vars
\* once there are data, there are always data of that context; the same for a model
Kept == [][\A c \in Live \cap DOMAIN st' : /\ st[c].data # None => st'[c].data # None
                                           /\ st[c].model # None => st'[c].model # None]_vars
ModelOnlyByTrain == [][\A c \in Live \cap DOMAIN st' : st'[c].model # st[c].model => last'.op = "train" /\ last'.ret = 0]_vars
FailuresChangeNothing == [][last'.ret = -1 => st' = st]_vars
Independent == [][\A c \in Live \cap DOMAIN st' : c # last'.c => st'[c] = st[c]]_vars
==============================================================================
