------------------------------ MODULE SyncTrace ------------------------------
(* Recorded runs of synchronous outputs: is the run a behaviour of SyncOut? Calls and returns are recorded in the order *)
(* they happened (events), and the files at the end (target).                                                            *)
EXTENDS SyncOut
VARIABLES i, w     \* events and records passed

TInit == Init /\ i = 0 /\ w = 0 /\ TLCSet(rn, <<0, 0>>)
Event ==
    /\ i < Len(Run.events) /\ i' = i + 1 /\ UNCHANGED w
    /\ LET e == Run.events[i + 1] IN IF e[1] = 1 THEN Call(e[2]) ELSE Return(e[2])
\* the next record of the target
Written ==
    /\ w < Len(Flat(Run.target)) /\ w' = w + 1 /\ UNCHANGED i
    /\ Write(Flat(Run.target)[w + 1])
    /\ Len(files') <= Len(Run.target)
    /\ LET k == Len(files') f == files'[k] IN Len(f) <= Len(Run.target[k]) /\ f = SubSeq(Run.target[k], 1, Len(f))
    /\ \A k \in 1..(Len(files') - 1) : files'[k] = Run.target[k]
\* writing as early as possible never hurts what comes later
TNext == IF ENABLED Written THEN Written ELSE Event
Reached == LET g == TLCGet(rn) IN IF i + w > g[1] + g[2] THEN TLCSet(rn, <<i, w>>) ELSE TRUE
=============================================================================
