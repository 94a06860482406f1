----------------------------- MODULE MCCompress -----------------------------
EXTENDS Compress
MCGrads == [j \in 1 .. NBlocks |-> [b \in 1 .. B |-> j * 3 + b * 7 - 11]]
=============================================================================
