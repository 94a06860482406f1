------------------------------- MODULE ParHist ------------------------------
(* Histograms are built by several workers: the bins of all active features  *)
(* are tasks, a worker computes the value of a bin, and stores it while it   *)
(* holds the lock. The result does not depend on the schedule, nothing is    *)
(* stored in histograms of other nodes, and every bin is written once.       *)
(* With Locked = FALSE the store is read-modify-write on the shared array    *)
(* (what the lock is there to prevent): TLC then finds a lost update.        *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Workers, Bins, Locked    \* Bins: number of bins per feature

VARIABLES todo, busy, hist, lock, writes

vars == <<todo, busy, hist, lock, writes>>
Features == DOMAIN Bins
Tasks == {<<f, k>> : f \in Features, k \in 1 .. 4} \cap UNION {{<<f, k>> : k \in 1 .. Bins[f]} : f \in Features}
Value(t) == t[1] * 10 + t[2]
Idle == [st |-> "idle"]

Init == /\ todo = Tasks
        /\ busy = [w \in Workers |-> Idle]
        /\ hist = [t \in Tasks |-> 0]
        /\ lock = "free"
        /\ writes = [t \in Tasks |-> 0]

Take(w) == /\ busy[w].st = "idle"
           /\ \E t \in todo :
                /\ todo' = todo \ {t}
                /\ busy' = [busy EXCEPT ![w] = [st |-> "have", t |-> t]]
           /\ UNCHANGED <<hist, lock, writes>>
Acquire(w) == /\ busy[w].st = "have" /\ (Locked => lock = "free")
              /\ lock' = IF Locked THEN w ELSE lock
              /\ busy' = [busy EXCEPT ![w] = [st |-> "held", t |-> @.t, copy |-> hist]]
              /\ UNCHANGED <<todo, hist, writes>>
Store(w) == /\ busy[w].st = "held"
            /\ LET t == busy[w].t IN
               /\ hist' = [busy[w].copy EXCEPT ![t] = Value(t)]
               /\ writes' = [writes EXCEPT ![t] = @ + 1]
            /\ lock' = IF Locked THEN "free" ELSE lock
            /\ busy' = [busy EXCEPT ![w] = Idle]
            /\ UNCHANGED todo
Next == \E w \in Workers : Take(w) \/ Acquire(w) \/ Store(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == todo = {} /\ \A w \in Workers : busy[w] = Idle
SameResult == Done => \A t \in Tasks : hist[t] = Value(t) /\ writes[t] = 1
Exclusive == Locked => Cardinality({w \in Workers : busy[w].st = "held"}) <= 1
Finishes == <>Done
=============================================================================
