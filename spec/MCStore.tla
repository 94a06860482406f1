------------------------------- MODULE MCStore -------------------------------
EXTENDS Store, Json
\* states that differ only in the history are the same
View == <<live, buf, len, free, ends, nops>>
\* generation: every history of MaxOps operations is printed
Emit == nops = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
==============================================================================
