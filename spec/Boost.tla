------------------------------- MODULE Boost -------------------------------
(* The boosting system: what is sampled for a tree, how a tree grows, which  *)
(* example ends up in which leaf, and what the model then predicts.          *)
(*                                                                           *)
(* One behaviour is one training run.  The data set and the configuration    *)
(* are in cf and never change.  A tree is grown from StartTree to            *)
(* FinishTree; the order in which open nodes are handled is not prescribed.  *)
(* Values of features are compared, never computed with, so any injective    *)
(* order-preserving image of them will do (the traces use the bit patterns   *)
(* of the floats).  Gradients are integers, q(r) is the gradient of row r    *)
(* after clamping to the bounds of the objective, which is what the learner  *)
(* stores: it is exact when the bounds are `number of levels - 1` apart.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions

CONSTANTS Tags,   \* the requirements (property ids) that are enforced
          Loud    \* say why a step is rejected?

VARIABLES cf,     \* configuration and data
          it,     \* number of finished trees
          pc,     \* "idle" | "grow" | "oob" | "done"
          smp,    \* what was sampled for the current tree
          open,   \* node -> rows that still have to be split or turned into a leaf
          inner,  \* node -> its split
          leaf,   \* node -> [rows, val]
          oob,    \* out-of-bag row -> value added to its prediction
          pred,   \* row -> current prediction
          model   \* the finished trees

vars == <<cf, it, pc, smp, open, inner, leaf, oob, pred, model>>

Req(tag, where, cond, msg) ==
    IF tag \notin Tags THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE /\ Loud
         /\ PrintT(<<"REJECT", where, tag, msg>>)
         /\ FALSE

---------------------------------------------------------------------------
(* Trees. Nodes are numbered as in a heap. *)

LeftOf(k)  == 2 * k + 1
RightOf(k) == 2 * k + 2
RECURSIVE DepthOf(_)
DepthOf(k) == IF k = 0 THEN 0 ELSE 1 + DepthOf((k - 1) \div 2)
RECURSIVE IsUnder(_, _)       \* is node k equal to node a or below it?
IsUnder(k, a) == IF k = a THEN TRUE ELSE IF k < a THEN FALSE ELSE IsUnder((k - 1) \div 2, a)
Pow2(n) == 2 ^ n
MayBeSplit(k) == k < Pow2(cf.depth) - 1

\* Where does a value go?  An unseen category of a high-cardinality feature goes right.
Super(sup, v) == IF v < Len(sup) THEN sup[v + 1] ELSE Len(sup)
GoesLeft(ftype, c, sup, v) ==
    CASE ftype = "num" -> v < c.sv
      [] ftype = "lo"  -> v = c.sv
      [] ftype = "hi"  -> Super(sup, v) <= c.sv

Rows == 0 .. (cf.n - 1)
Val(f, r) == cf.vals[f + 1][r + 1]
RowLeft(c, sup, r) == GoesLeft(cf.ftype[c.f + 1], c, sup[c.f + 1], Val(c.f, r))

\* value(f) is the value of feature f of the example
RECURSIVE Route(_, _, _)
Route(tree, value(_), k) ==
    IF k \in DOMAIN tree.leaf THEN k
    ELSE IF k \notin DOMAIN tree.inner THEN -1
    ELSE LET c == tree.inner[k] IN
         Route(tree, value, IF GoesLeft(cf.ftype[c.f + 1], c, tree.sup[c.f + 1], value(c.f))
                            THEN LeftOf(k) ELSE RightOf(k))
LeafValue(tree, k) == IF k = -1 THEN 0 ELSE tree.leaf[k].val
CurTree == [inner |-> inner, leaf |-> leaf, sup |-> smp.sup]
TreeValue(tree, r) == LET v(f) == Val(f, r) IN LeafValue(tree, Route(tree, v, 0))

---------------------------------------------------------------------------
(* Greedy choice. Sc(g,c) is K2 * g^2 / (2 (c + lambda)), in integers. *)

Clamp(g) == IF g < cf.lo THEN cf.lo ELSE IF g > cf.hi THEN cf.hi ELSE g
\* a row may stand for several rows that are all the same: cf.w says how many (<<>>: one each), and
\* q is the sum of their gradients
Count(S) == IF cf.w = <<>> THEN Cardinality(S) ELSE FoldSet(LAMBDA r, a : a + cf.w[r + 1], 0, S)
SumQ(S) == FoldFunctionOnSet(+, 0, smp.q, S)
Sc(g, c) == (g * g * cf.k2) \div (2 * c + cf.lam2)
Gain(gp, np, gl, nl) == Sc(gl, nl) + Sc(gp - gl, np - nl) - Sc(gp, np)
\* the sums of gradients are exact; what 32-bit floats may get wrong is the last few bits of each of the three terms
Rounding(gp, np, gl, nl) == cf.tol + (Sc(gl, nl) \div 262144) + (Sc(gp - gl, np - nl) \div 262144) + (Sc(gp, np) \div 262144)

\* a side without examples is no side, even when no least number is asked for
LeastRows == IF cf.minex > 1 THEN cf.minex ELSE 1

\* the gains of all candidates that leave enough examples on both sides
Gains(N) ==
    LET np == Count(N)
        gp == SumQ(N)
        one(i) == LET L == N \cap smp.cand[i].mask
                      nl == Count(L)
                  IN IF nl < LeastRows \/ np - nl < LeastRows THEN {}
                     ELSE {<<i, Gain(gp, np, SumQ(L), nl), Rounding(gp, np, SumQ(L), nl)>>}
    IN UNION {one(i) : i \in DOMAIN smp.cand}

IsBest(N, L) ==
    LET np == Count(N)
        nl == Count(L)
        g  == Gain(SumQ(N), np, SumQ(L), nl)
        e  == Rounding(SumQ(N), np, SumQ(L), nl)
    IN /\ nl >= LeastRows /\ np - nl >= LeastRows
       /\ g >= cf.mgk - e
       /\ \A x \in Gains(N) : g >= x[2] - e - x[3]
NothingToGain(N) == \A x \in Gains(N) : x[2] <= cf.mgk + x[3]

---------------------------------------------------------------------------
(* Actions *)

Init0(c) ==
    /\ cf = c
    /\ it = 0 /\ pc = "idle" /\ smp = <<>> /\ model = <<>>
    /\ open = <<>> /\ inner = <<>> /\ leaf = <<>> /\ oob = <<>>
    /\ pred = [r \in 0 .. (c.n - 1) |-> c.bias]

\* s: [bag, cand, sup, q]
StartTree(s) ==
    /\ pc = "idle" /\ it < cf.niter
    /\ smp' = s
    /\ open' = (0 :> s.bag)
    /\ inner' = <<>> /\ leaf' = <<>> /\ oob' = <<>>
    /\ pc' = "grow"
    /\ UNCHANGED <<cf, it, pred, model>>

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* Node k is split by candidate c, its rows are divided into L and R.
Split(k, c, L, R, where) ==
    /\ pc = "grow" /\ k \in DOMAIN open
    /\ Req("C05", where, MayBeSplit(k), <<"a node at maximal depth is split", k>>)
    /\ Req("C02", where, L \cup R = open[k] /\ L \cap R = {}, <<"children do not divide the rows of node", k>>)
    /\ Req("C02", where, L # {} /\ R # {}, <<"a child without rows, node", k>>)
    /\ Req("C05", where, Count(L) >= cf.minex /\ Count(R) >= cf.minex, <<"child is too small, node", k>>)
    /\ Req("C01", where, L = open[k] \cap c.mask, <<"the rows are not divided as the split says, node", k>>)
    /\ Req("C03", where, IsBest(open[k], L), <<"not the best split, node", k, c.f, c.sv>>)
    /\ open' = (LeftOf(k) :> L) @@ (RightOf(k) :> R) @@ Without(open, k)
    /\ inner' = (k :> [f |-> c.f, sv |-> c.sv]) @@ inner
    /\ UNCHANGED <<cf, it, pc, smp, leaf, oob, pred, model>>

\* Node k becomes a leaf with value v; the predictions of its rows are updated.
MakeLeaf(k, rows, v, where) ==
    /\ pc = "grow" /\ k \in DOMAIN open
    /\ Req("C02", where, rows = open[k] /\ rows # {}, <<"leaf does not hold the rows of its node", k>>)
    /\ Req("C03", where, ~MayBeSplit(k) \/ NothingToGain(open[k]), <<"a leaf that should have been split", k>>)
    /\ leaf' = (k :> [rows |-> rows, val |-> v]) @@ leaf
    /\ pred' = [r \in DOMAIN pred |-> IF r \in rows THEN pred[r] + v ELSE pred[r]]
    /\ open' = Without(open, k)
    /\ UNCHANGED <<cf, it, pc, smp, inner, oob, model>>

\* The rows that are not in the bag get the prediction of the tree.
OutOfBag(upd, where) ==
    /\ pc = "grow" /\ open = <<>>
    /\ Req("C02", where, DOMAIN upd = Rows \ smp.bag, "not exactly the out-of-bag rows are updated")
    /\ Req("C01", where, \A r \in DOMAIN upd : upd[r] = TreeValue(CurTree, r), "an out-of-bag row gets another value than its leaf has")
    /\ oob' = upd
    /\ pred' = [r \in DOMAIN pred |-> IF r \in DOMAIN upd THEN pred[r] + upd[r] ELSE pred[r]]
    /\ pc' = "oob"
    /\ UNCHANGED <<cf, it, smp, open, inner, leaf, model>>

FinishTree ==
    /\ pc = "oob"
    /\ model' = Append(model, CurTree)
    /\ it' = it + 1
    /\ pc' = IF it + 1 = cf.niter THEN "done" ELSE "idle"
    /\ UNCHANGED <<cf, smp, open, inner, leaf, oob, pred>>

---------------------------------------------------------------------------
(* What has to hold, whatever the schedule *)

\* C02: every bagged row is in exactly one open node or leaf
Partition ==
    pc \in {"grow", "oob"} =>
        /\ \A r \in smp.bag :
              Cardinality({k \in DOMAIN open : r \in open[k]} \cup {k \in DOMAIN leaf : r \in leaf[k].rows}) = 1
        /\ \A k \in DOMAIN open : open[k] # {} /\ open[k] \subseteq smp.bag
        /\ \A k \in DOMAIN leaf : leaf[k].rows # {} /\ leaf[k].rows \subseteq smp.bag

\* C01: a finished tree sends every bagged row to the leaf that was fitted on it
Consistent ==
    pc = "oob" => \A r \in smp.bag : LET v(f) == Val(f, r) IN r \in leaf[Route(CurTree, v, 0)].rows

\* C01/C17: the predictions that were maintained are those of the model
PredConsistent ==
    pc \in {"idle", "done"} =>
        \A r \in Rows : pred[r] = cf.bias + FoldSeq(LAMBDA t, acc : acc + TreeValue(t, r), 0, model)

\* C05
WellFormed ==
    /\ \A k \in DOMAIN inner : DepthOf(k) < cf.depth
    /\ \A k \in DOMAIN inner \cup DOMAIN open \cup DOMAIN leaf : DepthOf(k) <= cf.depth
    /\ \A k \in DOMAIN inner : {LeftOf(k), RightOf(k)} \subseteq DOMAIN inner \cup DOMAIN open \cup DOMAIN leaf
    /\ pc = "oob" => Cardinality(DOMAIN leaf) = Cardinality(DOMAIN inner) + 1
    /\ \A k \in DOMAIN leaf : k # 0 => Count(leaf[k].rows) >= cf.minex

\* C03: splitting never makes the fit (on the stored gradients) worse than min_gain per split allows
Objective ==
    pc = "oob" =>
        \E fit \in {FoldSet(LAMBDA k, acc : acc + Sc(SumQ(leaf[k].rows), Count(leaf[k].rows)), 0, DOMAIN leaf)} :
            fit + 4 * cf.depth * (fit \div 262144)
              >= Sc(SumQ(smp.bag), Count(smp.bag)) + Cardinality(DOMAIN inner) * (cf.mgk - cf.tol)
=============================================================================
