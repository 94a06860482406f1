-------------------------------- MODULE MCTotal -------------------------------
(* The stages of loading, training and prediction, with the assumption that the    *)
(* code makes in each (assertions, divisions, binners over an empty range). A      *)
(* stage whose assumption fails leads to "panic".                                  *)
EXTENDS Total
CONSTANTS MaxN, MaxFeats, MaxDepth
VARIABLES inp, stage, iter, bounds, todo, work, done
vars == <<inp, stage, iter, bounds, todo, work, done>>

Kinds == {[cat |-> c, distinct |-> d] : c \in BOOLEAN, d \in 1 .. 2}
FeatSeqs == UNION {[1 .. k -> Kinds] : k \in 1 .. MaxFeats}
Objectives == {"l2", "l1", "huber", "binary", "hinge"}
Init ==
    /\ inp \in {[n |-> n, feats |-> f, classes |-> c, finite |-> TRUE, maxtarget |-> 0, fr |-> fr, ffr |-> ffr, bins |-> b, bits |-> w,
                 depth |-> d, minleaf |-> m, freq |-> 1, lr |-> 1000, lambda |-> 0, alpha |-> a, niter |-> 2, objective |-> o] :
                   n \in 0 .. MaxN, f \in FeatSeqs, c \in 1 .. 2, fr \in {100, 500, 1000}, ffr \in {100, 1000}, b \in 0 .. 1, w \in {2, 8},
                   d \in 0 .. MaxDepth, m \in 0 .. 1, a \in {500, 1000}, o \in Objectives}
    /\ stage = "load" /\ iter = 0 /\ bounds = "equal" /\ todo = {} /\ work = {} /\ done = 0

Go(from, guard, to) == stage = from /\ stage' = IF guard THEN to ELSE "panic"
Same == UNCHANGED <<inp, bounds, todo, work, done, iter>>
Load == Go("load", inp.n > 0 /\ inp.finite, "prepare") /\ Same
\* the histograms of a node need at least one bin
Prepare == Go("prepare", Useful(inp) # {} /\ inp.depth > 0 /\ inp.bits \in {1, 2, 4, 8}, "bias") /\ Same
Bias ==
    /\ Go("bias", /\ inp.objective = "binary" => inp.classes = 2               \* the log-odds
                  /\ inp.objective = "huber" => inp.alpha \in 1 .. 999
                  /\ inp.objective = "hinge" => inp.bits = 2, "update")
    /\ Same
Update ==
    /\ stage = "update"
    /\ IF iter = inp.niter THEN stage' = "predict" /\ Same
       ELSE /\ iter' = iter + 1 /\ bounds' \in (IF inp.objective \in {"l2", "huber"} THEN {"equal", "ordered"} ELSE {"ordered"})
            /\ todo' = Useful(inp) /\ stage' = "bins"
            /\ UNCHANGED <<inp, work, done>>
\* the range of a binner is not empty; a numerical feature gets at least one split
Bins ==
    /\ stage = "bins"
    /\ IF todo = {} THEN Go("bins", InBag(inp) >= 1 /\ Sampled(inp) >= 1, "tree") /\ work' = {<<"root", InBag(inp), 0>>} /\ done' = 0 /\ UNCHANGED <<inp, iter, bounds, todo>>
       ELSE LET f == CHOOSE f \in todo : TRUE
                ordered == IF inp.feats[f].cat THEN bounds = "ordered" \/ bounds = "equal" ELSE inp.feats[f].distinct > 1
            IN /\ Go("bins", ordered /\ (inp.feats[f].cat \/ inp.bins > 0), "bins")
               /\ todo' = todo \ {f} /\ UNCHANGED <<inp, iter, bounds, work, done>>
\* a node is a leaf, or is split in two parts of minleaf rows at least, and of one at least:
\* that a split has two sides must not depend on the setting
Least(c) == IF c.minleaf > 1 THEN c.minleaf ELSE 1
Tree ==
    /\ stage = "tree"
    /\ IF work = {} THEN Go("tree", done = InBag(inp), "update") /\ Same
       ELSE LET w == CHOOSE w \in work : TRUE IN
            \/ Go("tree", w[2] > 0, "tree") /\ work' = work \ {w} /\ done' = done + w[2] /\ UNCHANGED <<inp, iter, bounds, todo>>
            \/ /\ w[3] < inp.depth /\ Go("tree", TRUE, "tree")
               /\ \E a \in Least(inp) .. w[2] - Least(inp) :
                    work' = (work \ {w}) \cup {<<"l" \o w[1], a, w[3] + 1>>, <<"r" \o w[1], w[2] - a, w[3] + 1>>}
               /\ UNCHANGED <<inp, iter, bounds, todo, done>>
Predict == Go("predict", TRUE, "done") /\ Same
Next == Load \/ Prepare \/ Bias \/ Update \/ Bins \/ Tree \/ Predict
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoPanic == Valid(inp) => stage # "panic"
Finishes == Valid(inp) ~> stage = "done"
\* what is called invalid is not an arbitrary restriction: the code does rely on it
TellsApart == stage = "done" => (inp.n >= 1 /\ Useful(inp) # {} /\ inp.depth >= 1 /\ (inp.niter > 0 => InBag(inp) >= 1 /\ Sampled(inp) >= 1) /\ ValidObjective(inp))
===============================================================================
