------------------------------- MODULE Syslog -------------------------------
(***************************************************************************)
(* System log outputs: each has a threshold, a tag and a connection to the  *)
(* daemon, which is made again when it turns out to be broken; the daemon   *)
(* may go away and come back.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS
    Outs,     \* Outs[o]: [name, thr]; thr: lowest level sent, 1: all
    MaxSaid   \* messages in a behaviour

Levels == 2..7    \* trace, debug, info, warn, error, critical
\* severities of the system log: 2 critical, 3 error, 4 warning, 6 information, 7 debug
Severity(l) == CASE l = 2 -> 7 [] l = 3 -> 7 [] l = 4 -> 6 [] l = 5 -> 4 [] l = 6 -> 3 [] l = 7 -> 2

VARIABLES
    up,      \* whether the daemon listens
    conn,    \* conn[o]: "live", "stale" (to a daemon that is gone), "none"
    todo,    \* what the call under way still has to send: <<output, level, number>>
    got,     \* what the daemon received
    said,    \* the level of each message and whether the daemon listened all the time
    act
vars == <<up, conn, todo, got, said>>
O == 1..Len(Outs)

Init == up = TRUE /\ conn = [o \in O |-> "live"] /\ todo = <<>> /\ got = <<>> /\ said = <<>>
        /\ act = [op |-> "init", lvl |-> 0, o |-> 0]

RECURSIVE Those(_, _, _)
Those(o, l, n) == IF o > Len(Outs) THEN <<>> ELSE (IF l >= Outs[o].thr THEN <<<<o, l, n>>>> ELSE <<>>) \o Those(o + 1, l, n)
Log(l) ==
    /\ todo = <<>> /\ Len(said) < MaxSaid
    /\ said' = Append(said, [l |-> l, up |-> up])
    /\ todo' = Those(1, l, Len(said) + 1)
    /\ UNCHANGED <<up, conn, got>>
    /\ act' = [op |-> "log", lvl |-> l, o |-> 0]
Item(t) == [o |-> t[1], sev |-> Severity(t[2]), n |-> t[3]]
\* one attempt on the connection there is, then one on a new one
Send ==
    /\ todo # <<>>
    /\ LET t == Head(todo) o == t[1] IN
       IF conn[o] = "live" \/ up
       THEN got' = Append(got, Item(t)) /\ conn' = [conn EXCEPT ![o] = "live"]
       ELSE got' = got /\ conn' = [conn EXCEPT ![o] = "none"]
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<up, said>>
    /\ act' = [op |-> "send", lvl |-> 0, o |-> 0]
Close(o) ==
    /\ todo = <<>>
    /\ conn' = [conn EXCEPT ![o] = "none"] /\ UNCHANGED <<up, todo, got, said>>
    /\ act' = [op |-> "close", lvl |-> 0, o |-> o]
Down ==
    /\ up /\ todo = <<>>
    /\ up' = FALSE /\ conn' = [o \in O |-> IF conn[o] = "live" THEN "stale" ELSE conn[o]]
    /\ UNCHANGED <<todo, got, said>>
    /\ act' = [op |-> "down", lvl |-> 0, o |-> 0]
Up == ~up /\ todo = <<>> /\ up' = TRUE /\ UNCHANGED <<conn, todo, got, said>>
      /\ act' = [op |-> "up", lvl |-> 0, o |-> 0]
Next == (\E l \in Levels : Log(l)) \/ Send \/ (\E o \in O : Close(o)) \/ Down \/ Up

----------------------------------------------------------------------------
\* C22: what a daemon that listens receives: each message once per output whose threshold it meets, in order, with its severity
RECURSIVE Due(_)
Due(n) == IF n = 0 THEN <<>> ELSE Due(n - 1) \o
    (IF said[n].up THEN LET ts == Those(1, said[n].l, n) IN [i \in 1..Len(ts) |-> Item(ts[i])] ELSE <<>>)
AllSent == todo = <<>> => got = Due(Len(said))

\* for the replay: one call at a time, what the daemon receives is the label
Calls ==
    \/ \E l \in Levels :
        /\ said' = said /\ todo' = <<>>
        /\ LET ts == Those(1, l, 0) IN
           /\ got' = got
           /\ conn' = [o \in O |-> IF \E i \in 1..Len(ts) : ts[i][1] = o THEN (IF up THEN "live" ELSE "none") ELSE conn[o]]
           /\ act' = [op |-> "log", lvl |-> l, o |-> 0, want |-> IF up THEN [i \in 1..Len(ts) |-> <<Outs[ts[i][1]].name, Severity(l)>>] ELSE <<>>]
        /\ UNCHANGED up
    \/ \E o \in O : Close(o)
    \/ Down \/ Up
Key(u, c) == <<u, [o \in 1..Len(Outs) |-> c[o]]>>
PrintState == PrintT("@@S" \o ToJson([s |-> Key(up, conn), o |-> 0]))
PrintTransition == PrintT("@@T" \o ToJson([s |-> Key(up, conn), a |-> act', t |-> Key(up', conn')]))
=============================================================================
