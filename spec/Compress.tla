------------------------------ MODULE Compress ------------------------------
(* How the learner represents the rows of a node, and what compression does. *)
(*                                                                           *)
(* Rows are numbered B * block + bit. A node has a list of block numbers     *)
(* (idx), for each a set of bits (mask), and for each the gradients of the   *)
(* rows of that block (grad). An uncompressed node lists all blocks. A child *)
(* shares the lists of its parent; when more than Threshold percent of its   *)
(* masks are empty, the child gets lists of its own without these blocks.    *)
(* Whatever is compressed and when, the node stands for the same rows with   *)
(* the same gradients, in the same order.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS NBlocks, B, Depth, MinBlocks, Grads   \* Grads: block -> bit -> gradient

VARIABLES node,   \* [idx, mask, grad, compressed, depth]
          rows    \* the rows it should have

vars == <<node, rows>>
Blocks == 0 .. (NBlocks - 1)
Bits == 0 .. (B - 1)
AllRows == 0 .. (NBlocks * B - 1)
Q(r) == Grads[(r \div B) + 1][(r % B) + 1]

Root == [idx |-> [j \in 1 .. NBlocks |-> j - 1], mask |-> [j \in 1 .. NBlocks |-> Bits],
         grad |-> [j \in 1 .. NBlocks |-> Grads[j]], compressed |-> FALSE, depth |-> 0]

Init == node = Root /\ rows = AllRows

\* The child for the rows in F (or, for the right child, for those that are not)
ChildMask(F) == [j \in DOMAIN node.idx |-> {b \in node.mask[j] : node.idx[j] * B + b \in F}]
NonZero(m) == SelectSeq([j \in DOMAIN m |-> j], LAMBDA j : m[j] # {})

Share(F) ==
    /\ node.depth < Depth
    /\ node' = [node EXCEPT !.mask = ChildMask(F), !.depth = @ + 1]
    /\ rows' = rows \cap F

Compr(F) ==
    /\ node.depth < Depth
    /\ Len(node.idx) > MinBlocks
    /\ LET m == ChildMask(F)
           keep == NonZero(m)
       IN /\ keep # <<>>
          /\ Len(keep) < Len(m)
          /\ node' = [idx |-> [k \in DOMAIN keep |-> node.idx[keep[k]]],
                      mask |-> [k \in DOMAIN keep |-> m[keep[k]]],
                      grad |-> [k \in DOMAIN keep |-> node.grad[keep[k]]],
                      compressed |-> TRUE, depth |-> node.depth + 1]
          /\ rows' = rows \cap F

Next == \E F \in SUBSET AllRows : F \cap rows # {} /\ (Share(F) \/ Compr(F))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* what the iterators enumerate: row by row
RowsOf(n) == FlattenSeq([j \in DOMAIN n.idx |-> [k \in 1 .. Cardinality(n.mask[j]) |->
                 n.idx[j] * B + SetToSortSeq(n.mask[j], LAMBDA a, b : a < b)[k]]])
\* what the kernels sum, below a feature mask F
SumOf(n, F) == FoldSeq(+, 0, [j \in DOMAIN n.idx |->
                 FoldSet(LAMBDA b, a : a + n.grad[j][b + 1], 0, {b \in n.mask[j] : n.idx[j] * B + b \in F})])
CountOf(n, F) == FoldSeq(+, 0, [j \in DOMAIN n.idx |-> Cardinality({b \in n.mask[j] : n.idx[j] * B + b \in F})])

SameRows == RowsOf(node) = SetToSortSeq(rows, LAMBDA a, b : a < b)
SameGradients == \A F \in {AllRows} \cup {{r} : r \in AllRows} :
    /\ CountOf(node, F) = Cardinality(rows \cap F)
    /\ SumOf(node, F) = FoldSet(LAMBDA r, a : a + Q(r), 0, rows \cap F)
\* blocks stay in order, so rows are enumerated in order
Ordered == \A j \in 1 .. (Len(node.idx) - 1) : node.idx[j] < node.idx[j + 1]
=============================================================================
