-------------------------------- MODULE Caller --------------------------------
(***************************************************************************)
(* Which statement a record names. A logging call runs on a stack: the     *)
(* frames of the program, innermost first, above them the frames of the    *)
(* library. The logger whose outputs are used looks at the stack once if   *)
(* one of its outputs wants caller information; an output that finds       *)
(* nothing looks itself, from deeper down - a synchronous one on the       *)
(* stack, an asynchronous one possibly on another.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Parents,     \* Parents[i]: the parent of logger i (0 for the root, which is logger 1)
    Outs,        \* the outputs: [name, need: 0 nothing, 1 file and line, 2 function, too]
    Lists,       \* the lists of outputs (indices into Outs) that may be set
    Skips,       \* the caller skips that may be set
    Depth        \* frames of the program

VARIABLES skip, list, flag, act
vars == <<skip, list, flag>>

Loggers == 1..Len(Parents)
User(k) == [who |-> "program", k |-> k]       \* k = 0: the statement that called the logging method
Lib == [who |-> "library", k |-> 0]

\* the stack where write runs: method, common part, write; the program below
Stack == <<Lib, Lib, Lib>> \o [k \in 1..Depth |-> User(k - 1)]
LibFrames == 3

RECURSIVE From(_, _)
From(ls, i) == IF Lists[ls[i]] # <<>> \/ Parents[i] = 0 THEN i ELSE From(ls, Parents[i])

Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE NeedOf(_)
NeedOf(l) == IF l = <<>> THEN 0 ELSE Max(Outs[l[1]].need, NeedOf(Tail(l)))

\* what the library has in hand after write looked (or did not), called through logger i
Taken(i) == IF flag[From(list, i)] = 0 THEN Lib ELSE Stack[LibFrames + skip[i] + 1]
\* what output o shows: what was taken, or a frame of the library if nothing was
Shows(i, o) == IF Outs[o].need = 0 THEN -1 ELSE IF Taken(i) = Lib THEN -2 ELSE Taken(i).k

SetSkip(i, k) ==
    /\ skip' = [skip EXCEPT ![i] = k]
    /\ UNCHANGED <<list, flag>>
    /\ act' = [op |-> "skip", logger |-> i, k |-> k, list |-> 0]
SetOuts(i, k) ==
    /\ list' = [list EXCEPT ![i] = k]
    /\ flag' = [flag EXCEPT ![i] = Max(@, NeedOf(Lists[k]))]
    /\ UNCHANGED skip
    /\ act' = [op |-> "outs", logger |-> i, k |-> 0, list |-> k]

Init ==
    /\ skip = [i \in Loggers |-> 0]
    /\ list = [i \in Loggers |-> 1]      \* Lists[1] is the empty list
    /\ flag = [i \in Loggers |-> 0]
    /\ act = [op |-> "init", logger |-> 0, k |-> 0, list |-> 0]
Next ==
    \/ \E i \in Loggers, k \in Skips : SetSkip(i, k)
    \/ \E i \in Loggers, k \in 1..Len(Lists) : SetOuts(i, k)

----------------------------------------------------------------------------
\* C07: every output that wants it shows the frame of the statement, or the configured number above it
NamesStatement == \A i \in Loggers : \A j \in 1..Len(Lists[list[From(list, i)]]) :
    LET o == Lists[list[From(list, i)]][j] IN Outs[o].need > 0 => Shows(i, o) = skip[i]

Obs == [i \in 1..Len(Parents) |-> [j \in 1..Len(Lists[list[From(list, i)]]) |->
            LET o == Lists[list[From(list, i)]][j] IN <<Outs[o].name, Shows(i, o)>>]]
Key(s, l, f) == <<[i \in 1..Len(Parents) |-> s[i]], [i \in 1..Len(Parents) |-> l[i]], [i \in 1..Len(Parents) |-> f[i]]>>
PrintState == PrintT("@@S" \o ToJson([s |-> Key(skip, list, flag), o |-> Obs]))
PrintTransition == PrintT("@@T" \o ToJson([s |-> Key(skip, list, flag), a |-> act', t |-> Key(skip', list', flag')]))
=============================================================================
