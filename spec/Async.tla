------------------------------- MODULE Async -------------------------------
(***************************************************************************)
(* An asynchronous output: senders, a bounded queue, a loop that collects  *)
(* batches and writes them to a target which may be slow, a periodic flush *)
(* and any number of calls to close.                                       *)
(* Messages are numbered in the order of their calls.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
    M,         \* number of messages
    Pass,      \* Pass[m]: message m meets the threshold (used by Free only)
    Thread,    \* Thread[m]: the goroutine that sends m (used by Free only)
    Q, B,      \* size of the queue and of a batch
    C,         \* number of calls to close
    MaxOps,    \* length of the histories printed
    Ops,       \* operations that occur in them
    Period,    \* seconds between periodic flushes
    Loose,
    LowWays,   \* what becomes of messages below the threshold: "queued" and dropped by the loop, or "ignored" at once
    MaxBlocked \* how many senders may wait for room at once in a history

VARIABLES
    snd,     \* fate of each message: new, called, queued, refused, ret
    low,     \* messages below the threshold
    acc,     \* accepted messages in the order they were accepted
    queue, buf,
    wr,      \* the batch being written
    why,     \* reason of the write under way: "full", "tick", "final"
    loop,    \* "run", "write", "done"
    out,     \* batches written, each with its reason
    closed, cl,
    pre,     \* pre[c]: messages whose sending had returned when close c was called
    gate,    \* whether the target lets writes pass
    clock, due,  \* time, and whether a periodic flush is due
    ops, obs \* history

core == <<snd, low, acc, queue, buf, wr, why, loop, out, closed, cl, pre, gate, clock, due>>
vars == <<core, ops, obs>>

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1].b \o Flat(Tail(s))
Written == Flat(out)

Init ==
    /\ snd = [m \in 1..M |-> "new"] /\ low = {} /\ acc = <<>>
    /\ queue = <<>> /\ buf = <<>> /\ wr = <<>> /\ why = "" /\ loop = "run" /\ out = <<>>
    /\ closed = FALSE /\ cl = [c \in 1..C |-> "new"] /\ pre = [c \in 1..C |-> {}]
    /\ gate = TRUE /\ clock = 0 /\ due = FALSE
    /\ ops = <<>> /\ obs = <<>>

----------------------------------------------------------------------------
(* Steps of the output *)

Enqueue(m) ==
    /\ snd[m] = "called" /\ ~closed /\ Len(queue) < Q /\ (m \in low => "queued" \in LowWays)
    /\ queue' = Append(queue, m) /\ acc' = Append(acc, m)
    /\ snd' = [snd EXCEPT ![m] = "queued"]
    /\ UNCHANGED <<low, buf, wr, why, loop, out, closed, cl, pre, gate, clock, due>>
Refuse(m) ==
    /\ snd[m] = "called" /\ closed
    /\ snd' = [snd EXCEPT ![m] = "refused"]
    /\ UNCHANGED <<low, acc, queue, buf, wr, why, loop, out, closed, cl, pre, gate, clock, due>>
\* a message below the threshold need not go through the queue
Ignore(m) ==
    /\ snd[m] = "called" /\ m \in low /\ "ignored" \in LowWays
    /\ snd' = [snd EXCEPT ![m] = "refused"]
    /\ UNCHANGED <<low, acc, queue, buf, wr, why, loop, out, closed, cl, pre, gate, clock, due>>
Return(m) ==
    /\ snd[m] \in {"queued", "refused"}
    /\ snd' = [snd EXCEPT ![m] = "ret"]
    /\ UNCHANGED <<low, acc, queue, buf, wr, why, loop, out, closed, cl, pre, gate, clock, due>>

Take ==
    /\ loop = "run" /\ queue # <<>>
    /\ queue' = Tail(queue)
    /\ LET m == Head(queue)
           b == IF m \in low THEN buf ELSE Append(buf, m)
           full == m \notin low /\ Len(b) >= B
       IN /\ buf' = IF full THEN <<>> ELSE b
          /\ wr' = IF full THEN b ELSE wr
          /\ why' = IF full THEN "full" ELSE why
          /\ loop' = IF full THEN "write" ELSE loop
    /\ UNCHANGED <<snd, low, acc, out, closed, cl, pre, gate, clock, due>>
Flush(reason) ==
    /\ wr' = buf /\ buf' = <<>> /\ why' = reason /\ loop' = "write"
    /\ UNCHANGED <<snd, low, acc, queue, out, closed, cl, pre, gate, clock>>
\* with nothing pending a periodic flush leaves no trace
TickFlush == loop = "run" /\ due /\ buf # <<>> /\ Flush("tick") /\ due' = FALSE
TickIdle == loop = "run" /\ due /\ buf = <<>> /\ due' = FALSE
            /\ UNCHANGED <<snd, low, acc, queue, buf, wr, why, loop, out, closed, cl, pre, gate, clock>>
LastFlush == loop = "run" /\ closed /\ queue = <<>> /\ Flush("final") /\ UNCHANGED due
EndWrite ==
    /\ loop = "write" /\ (gate \/ wr = <<>>)
    /\ out' = IF wr = <<>> THEN out ELSE Append(out, [b |-> wr, why |-> why])
    /\ wr' = <<>> /\ why' = ""
    /\ loop' = IF why = "final" THEN "done" ELSE "run"
    /\ UNCHANGED <<snd, low, acc, queue, buf, closed, cl, pre, gate, clock, due>>

Seal(c) ==
    /\ cl[c] = "called" /\ ~closed
    /\ closed' = TRUE
    /\ UNCHANGED <<snd, low, acc, queue, buf, wr, why, loop, out, cl, pre, gate, clock, due>>
CloseReturn(c) ==
    /\ cl[c] = "called" /\ loop = "done"
    /\ cl' = [cl EXCEPT ![c] = "ret"]
    /\ UNCHANGED <<snd, low, acc, queue, buf, wr, why, loop, out, closed, pre, gate, clock, due>>

Step ==
    \/ \E m \in 1..M : Enqueue(m) \/ Refuse(m) \/ Ignore(m) \/ Return(m)
    \/ Take \/ TickFlush \/ TickIdle \/ LastFlush \/ EndWrite
    \/ \E c \in 1..C : Seal(c) \/ CloseReturn(c)

\* Nothing more happens by itself. While a close has not returned and the target blocks, calls may be
\* anywhere on their way when observed from outside (Loose): it is seen when the target goes on.
Closing == \E c \in 1..C : cl[c] = "called"
Settled ==
    IF Loose /\ Closing THEN ~gate
    ELSE /\ \A m \in 1..M : snd[m] \in {"new", "ret", "called"}
         /\ \A m \in 1..M : snd[m] = "called" => ~closed /\ Len(queue) >= Q /\ (m \in low => "ignored" \notin LowWays)
         /\ loop = "run" => queue = <<>> /\ ~due /\ ~closed
         /\ loop = "write" => ~gate /\ wr # <<>>
         /\ \A c \in 1..C : cl[c] = "called" => (closed /\ loop # "done") \/ (~closed /\ \E m \in 1..M : snd[m] = "called")

----------------------------------------------------------------------------
(* The environment *)

SendCall(m, p) ==
    /\ snd[m] = "new"
    /\ snd' = [snd EXCEPT ![m] = "called"]
    /\ low' = IF p THEN low ELSE low \cup {m}
    /\ UNCHANGED <<acc, queue, buf, wr, why, loop, out, closed, cl, pre, gate, clock, due>>
CloseCall(c) ==
    /\ cl[c] = "new"
    /\ cl' = [cl EXCEPT ![c] = "called"]
    /\ pre' = [pre EXCEPT ![c] = {m \in 1..M : snd[m] = "ret"}]
    /\ UNCHANGED <<snd, low, acc, queue, buf, wr, why, loop, out, closed, gate, clock, due>>
SetGate(g) ==
    /\ gate # g /\ gate' = g
    /\ UNCHANGED <<snd, low, acc, queue, buf, wr, why, loop, out, closed, cl, pre, clock, due>>
Advance(k) ==
    /\ clock' = clock + k
    /\ due' = ((due \/ (clock + k) \div Period > clock \div Period) /\ loop # "done")
    /\ UNCHANGED <<snd, low, acc, queue, buf, wr, why, loop, out, closed, cl, pre, gate>>

----------------------------------------------------------------------------
(* Histories: one operation after another, each when the output has come to rest *)

Seen == [ret |-> {m \in 1..M : snd[m] = "ret"}, cret |-> {c \in 1..C : cl[c] = "ret"}, out |-> [i \in 1..Len(out) |-> out[i].b]]
NextMsg == CHOOSE m \in 1..(M + 1) : (m = M + 1 \/ snd[m] = "new") /\ \A k \in 1..(m - 1) : snd[k] # "new"
NextClose == CHOOSE c \in 1..(C + 1) : (c = C + 1 \/ cl[c] = "new") /\ \A k \in 1..(c - 1) : cl[k] # "new"

Op(name, arg, A) ==
    /\ Settled /\ Len(ops) < MaxOps /\ name \in Ops
    /\ A
    /\ ops' = Append(ops, [op |-> name, arg |-> arg])
    /\ obs' = IF ops = <<>> THEN <<>> ELSE Append(obs, Seen)

Room == Cardinality({m \in 1..M : snd[m] = "called"}) < MaxBlocked
HistNext ==
    \/ Step /\ UNCHANGED <<ops, obs>>
    \/ NextMsg <= M /\ Room /\ Op("send", NextMsg, SendCall(NextMsg, TRUE))
    \/ NextMsg <= M /\ Room /\ Op("low", NextMsg, SendCall(NextMsg, FALSE))
    \/ NextClose <= C /\ Op("close", NextClose, CloseCall(NextClose))
    \/ Op("shut", 0, SetGate(FALSE))
    \/ Op("open", 0, SetGate(TRUE))
    \/ \E k \in {1, 4, 5, 13, 61} : Op("wait" \o ToString(k), k, Advance(k))

PrintHistory == (Settled /\ Len(ops) = MaxOps) => PrintT("@@H" \o ToJson([ops |-> ops, obs |-> Append(obs, Seen)]))

----------------------------------------------------------------------------
(* Everything at any time *)

Free ==
    /\ UNCHANGED <<ops, obs>>
    /\ \/ Step
       \/ \E m \in 1..M : (\A k \in 1..(m - 1) : Thread[k] = Thread[m] => snd[k] = "ret") /\ SendCall(m, Pass[m])
       \/ \E c \in 1..C : CloseCall(c)
       \/ SetGate(TRUE) \/ ("shut" \in Ops /\ ~closed /\ SetGate(FALSE))
       \/ ("wait5" \in Ops /\ clock < 10 /\ ~due /\ Advance(5))

Same == UNCHANGED <<ops, obs>>
FreeSpec ==
    /\ Init /\ [][Free]_vars
    /\ WF_vars(Step /\ Same) /\ WF_vars(SetGate(TRUE) /\ Same)
    /\ WF_vars((Take \/ TickFlush \/ TickIdle \/ LastFlush \/ EndWrite) /\ Same)
    /\ \A m \in 1..M : WF_vars((Return(m) \/ Refuse(m)) /\ Same) /\ SF_vars(Enqueue(m) /\ Same)
    /\ SF_vars(EndWrite /\ Same)
    /\ \A c \in 1..C : WF_vars((Seal(c) \/ CloseReturn(c)) /\ Same)

----------------------------------------------------------------------------
(* Properties *)

NotLow(s) == SelectSeq(s, LAMBDA m : m \notin low)
\* C09: nothing lost, repeated or reordered: what was accepted is written, being written, pending or queued, in this order
Exact == Written \o wr \o buf \o NotLow(queue) = NotLow(acc)
Bounded == Len(queue) <= Q
\* a message whose sending had returned before another's began is accepted before it
CallOrder == [][\A m \in 1..M : (snd[m] # "queued" /\ snd'[m] = "queued") =>
                    \A k \in (m + 1)..M : Thread[k] = Thread[m] => k \notin Range(acc)]_vars
\* C10: when a close returns all that had been sent before it has been written
Flushed == \A c \in 1..C : cl[c] = "ret" => \A m \in pre[c] \cap Range(acc) : m \in low \/ m \in Range(Written)
NothingAfter == [][(\E c \in 1..C : cl[c] = "ret") => out' = out /\ acc' = acc]_vars
\* C11
Batches == \A i \in 1..Len(out) : /\ Len(out[i].b) <= B
                                  /\ out[i].why = "full" => Len(out[i].b) = B
                                  /\ out[i].why = "final" => i = Len(out)
Pending == Len(buf) < B
RECURSIVE SentAt(_, _, _)
SentAt(m, k, t) == \* when message m was sent, looking from operation k on
    IF ops[k].op \in {"send", "low"} /\ ops[k].arg = m THEN t
    ELSE SentAt(m, k + 1, IF ops[k].op \in {"send", "low", "close", "shut", "open"} THEN t ELSE t + ops[k].arg)
\* (a target that blocks may delay the flush)
FlushDue == (Settled /\ loop = "run" /\ \A k \in 1..Len(ops) : ops[k].op # "shut") => \A k \in 1..Len(buf) : clock - SentAt(buf[k], 1, 0) < Period
\* liveness: calls return, accepted messages are written once somebody closes
SendReturns == \A m \in 1..M : snd[m] = "called" ~> snd[m] = "ret"
CloseReturns == \A c \in 1..C : cl[c] = "called" ~> cl[c] = "ret"

============================================================================
