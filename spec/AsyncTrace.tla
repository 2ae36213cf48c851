---- MODULE AsyncTrace ----
EXTENDS Async
(* Recorded runs: is the run a behaviour of the output? Calls, returns and writes are *)
(* recorded in the order they happened; the steps in between are not.       *)

VARIABLES tr, i
tvars == <<vars, tr, i>>
TInit(traces) == Init /\ tr \in 1..Len(traces) /\ i = 0
Event(traces) ==
    /\ i < Len(traces[tr])
    /\ i' = i + 1 /\ UNCHANGED <<tr, ops, obs>>
    /\ LET e == traces[tr][i + 1] IN
       CASE e.e = "call" -> SendCall(e.n, e.p)
         [] e.e = "ret" -> Return(e.n)
         [] e.e = "ccall" -> CloseCall(e.n)
         [] e.e = "cret" -> CloseReturn(e.n)
         [] e.e = "write" -> EndWrite /\ wr = e.b
Silent(ticks) ==
    /\ UNCHANGED <<tr, i, ops, obs>>
    /\ \/ \E m \in 1..M : Enqueue(m) \/ Refuse(m) \/ Ignore(m)
       \/ Take \/ LastFlush
       \/ loop = "write" /\ wr = <<>> /\ EndWrite
       \/ (ticks /\ loop = "run" /\ buf # <<>> /\ Flush("tick") /\ UNCHANGED due)
       \/ \E c \in 1..C : Seal(c)
\* the furthest event reached in each run
Reached(traces) == IF i > TLCGet(tr) THEN TLCSet(tr, i) ELSE TRUE
============================================================================
