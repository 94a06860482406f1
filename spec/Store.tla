-------------------------------- MODULE Store --------------------------------
(* The block and histogram stores. The user's view: `live` maps handles to     *)
(* ranges and what is in them. The store's view: one buffer that grows, a list  *)
(* of freed ranges, and the full extent of every range that was ever made.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Align, Lens, MaxOps
VARIABLES live, buf, len, free, ends, nops, hist
vars == <<live, buf, len, free, ends, nops, hist>>

Cells(r) == r[1] .. r[2] - 1
Overlap(r, q) == Cells(r) \cap Cells(q) # {}
Zero == 0
FreshId == IF DOMAIN live = {} THEN 1 ELSE Max(DOMAIN live) + 1

Init == live = << >> /\ buf = << >> /\ len = 0 /\ free = << >> /\ ends = << >> /\ nops = 0 /\ hist = << >>

Log(op) == nops' = nops + 1 /\ hist' = Append(hist, op)
Put(b, r, f(_)) == [k \in DOMAIN b \cup Cells(r) |-> IF k \in Cells(r) THEN f(k) ELSE b[k]]
RemoveSwap(s, k) == [j \in 1 .. Len(s) - 1 |-> IF j = k THEN s[Len(s)] ELSE s[j]]
NewRange(id, r, v) == live' = [i \in DOMAIN live \cup {id} |-> IF i = id THEN [r |-> r, v |-> [k \in 1 .. r[2] - r[1] |-> v]] ELSE live[i]]

Alloc(n) ==
    LET fits == {k \in DOMAIN free : free[k][2] - free[k][1] >= n} IN
    /\ IF fits # {}
       THEN LET k == Min(fits)
                r == free[k] IN
            /\ free' = RemoveSwap(free, k)
            /\ buf' = Put(buf, r, LAMBDA x : Zero)
            /\ NewRange(FreshId, <<r[1], r[1] + n>>, Zero)
            /\ UNCHANGED <<len, ends>>
       ELSE LET lo == ((len + Align - 1) \div Align) * Align
                r == <<lo, lo + n>> IN
            /\ buf' = Put(buf, <<len, lo + n>>, LAMBDA x : Zero)
            /\ len' = lo + n
            /\ ends' = [k \in DOMAIN ends \cup {lo} |-> IF k = lo THEN lo + n ELSE ends[k]]
            /\ NewRange(FreshId, r, Zero)
            /\ UNCHANGED free
    /\ Log([op |-> "alloc", id |-> FreshId, n |-> n])

Write(id, k) ==
    /\ buf' = [buf EXCEPT ![live[id].r[1] + k - 1] = nops + 1]
    /\ live' = [live EXCEPT ![id].v[k] = nops + 1]
    /\ UNCHANGED <<len, free, ends>>
    /\ Log([op |-> "write", id |-> id, k |-> k - 1, v |-> nops + 1])

Free(id) ==
    /\ free' = Append(free, <<live[id].r[1], ends[live[id].r[1]]>>)
    /\ live' = [i \in DOMAIN live \ {id} |-> live[i]]
    /\ UNCHANGED <<buf, len, ends>>
    /\ Log([op |-> "free", id |-> id])

Reset ==
    /\ nops > 0
    /\ live' = << >> /\ free' = << >> /\ ends' = << >> /\ len' = 0
    /\ UNCHANGED buf
    /\ Log([op |-> "reset"])

Next ==
    /\ nops < MaxOps
    /\ \/ \E n \in Lens : Alloc(n)
       \/ \E id \in DOMAIN live : \E k \in {1, Len(live[id].v)} : Write(id, k)
       \/ \E id \in DOMAIN live : Free(id)
       \/ Reset
Spec == Init /\ [][Next]_vars

(* what the user relies on *)
Disjoint == \A i, j \in DOMAIN live : i # j => ~Overlap(live[i].r, live[j].r)
Content == \A i \in DOMAIN live : \A k \in 1 .. Len(live[i].v) : buf[live[i].r[1] + k - 1] = live[i].v[k]
(* and why it holds *)
FreeApart == /\ \A k \in DOMAIN free : \A i \in DOMAIN live : ~Overlap(free[k], live[i].r)
             /\ \A j, k \in DOMAIN free : j # k => ~Overlap(free[j], free[k])
Within == \A i \in DOMAIN live : live[i].r[1] \in DOMAIN ends /\ live[i].r[2] <= ends[live[i].r[1]] /\ ends[live[i].r[1]] <= len
==============================================================================
