------------------------------ MODULE MCBoost ------------------------------
(* All runs on a few tiny data sets: every bag, every gradient vector, every *)
(* subset of the split candidates, every order of handling the nodes.        *)
EXTENDS Boost

CONSTANTS N, Depth, NIter, MinEx, Bags, Lam2, MgK, MinCand

GradVals == {-1, 2}

\* feature 0: number, feature 1: category with few values, feature 2: category with many values
DataSets == {
    << [r \in 1 .. N |-> r \div 2], [r \in 1 .. N |-> r % 3], [r \in 1 .. N |-> (r * 2) % 5] >>,
    << [r \in 1 .. N |-> 1], [r \in 1 .. N |-> IF r < 3 THEN 0 ELSE 2], [r \in 1 .. N |-> (N - r)] >> }

Envs == {[n |-> N, w |-> <<>>, nf |-> 3, depth |-> Depth, niter |-> NIter, minex |-> MinEx, lam2 |-> Lam2,
          lo |-> -1, hi |-> 2, bias |-> 3, k2 |-> 5040, mgk |-> MgK, tol |-> 0,
          ftype |-> <<"num", "lo", "hi">>, vals |-> d] : d \in DataSets}

\* super-categories by the position of the category in some order (here: two orders)
SupOrders == { <<0, 1, 1, 2, 2>>, <<2, 2, 1, 0>> }

MaskOf(c, sup, bag) == {r \in bag : RowLeft(c, sup, r)}
AllCands(sup, bag) ==
    {[f |-> 0, sv |-> v] : v \in {1, 2}} \cup {[f |-> 1, sv |-> v] : v \in {0, 1, 2}} \cup {[f |-> 2, sv |-> v] : v \in {0, 1}}

Sample(b, so, cs, g) ==
    [ bag  |-> b,
      cand |-> SetToSeq({[f |-> c.f, sv |-> c.sv, mask |-> MaskOf(c, <<<<>>, <<>>, so>>, b)] : c \in cs}),
      sup  |-> <<<<>>, <<>>, so>>,
      q    |-> [r \in Rows |-> Clamp(g[r])]]
BagSets == {x \in SUBSET (0 .. N-1) : Cardinality(x) \in Bags}
CandSets == {x \in SUBSET AllCands(<<>>, {}) : Cardinality(x) \in MinCand}

MCInit == \E c \in Envs : Init0(c)
MCStart ==
    /\ pc = "idle"
    /\ \E b \in BagSets, so \in SupOrders, cs \in CandSets, g \in [Rows -> GradVals] :
           \E s \in {Sample(b, so, cs, g)} : StartTree(s)
MCSplit == pc = "grow" /\ \E k \in DOMAIN open, i \in DOMAIN smp.cand :
    LET c == smp.cand[i] IN
        /\ MayBeSplit(k)
        /\ open[k] \cap c.mask # {} /\ open[k] \ c.mask # {}
        /\ Gain(SumQ(open[k]), Cardinality(open[k]), SumQ(open[k] \cap c.mask), Cardinality(open[k] \cap c.mask)) > cf.mgk
        /\ Split(k, c, open[k] \cap c.mask, open[k] \ c.mask, "mc")
MCLeaf == \E k \in DOMAIN open : MakeLeaf(k, open[k], k + 1, "mc")
MCOob == pc = "grow" /\ open = <<>> /\ OutOfBag([r \in Rows \ smp.bag |-> TreeValue(CurTree, r)], "mc")
MCNext == MCStart \/ MCSplit \/ MCLeaf \/ MCOob \/ FinishTree
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)

Terminates == <>(pc = "done")
=============================================================================
