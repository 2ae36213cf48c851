----------------------------- MODULE Neighbours -----------------------------
(***************************************************************************)
(* Outputs that write beside each other: several rolled files, of both     *)
(* kinds, in one directory, each with its own limit, number of backups and *)
(* archives, some of which cannot be written at all. Goroutines log through*)
(* loggers that have one or several of the outputs; a message to an output *)
(* is taken through the steps of rolling, archiving and appending one by   *)
(* one, so that the steps of different outputs come in every order.        *)
(* A file is a name in the directory for a body; a body may be open under  *)
(* a name it no longer has.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Outs,     \* the outputs: [kind: "size"/"time", cap: messages a file holds (size), keep: backups kept (0: all), arch: TRUE/FALSE,
              \*  how: "works" / "broken" (cannot be opened) / "stuck" (archives cannot be put in place)]
    Procs,    \* goroutines: each a sequence of loggers, a logger the sequence of its outputs. No output is used by two goroutines.
    MaxMsgs,  \* messages an output gets
    Periods,  \* how often the time goes on to another period
    OneTemp   \* TRUE: archives are all prepared in one temporary file (a design that is wrong)

O == 1..Len(Outs)
P == 1..Len(Procs)

VARIABLES
    now,      \* the period
    hist,     \* output -> the period of each message it got
    dir,      \* names in the directory -> body: <<o, 0>> current file, <<o, k>> k-th backup, <<o, -k>> its archive, <<0, t>> temporary
    body,     \* bodies: sequence of sequences of <<output, message>>
    pc,       \* output -> step it is at
    tmp,      \* output -> [name, body] of the archive being prepared
    todo,     \* goroutine -> outputs that have yet to get the message being logged
    act
vars == <<now, hist, dir, body, pc, tmp, todo>>

NoTmp == [name |-> <<0, 0>>, body |-> 0]
Init ==
    /\ now = 0
    /\ hist = [o \in O |-> <<>>]
    /\ dir = << >> /\ body = << >>
    /\ pc = [o \in O |-> "idle"]
    /\ tmp = [o \in O |-> NoTmp]
    /\ todo = [p \in P |-> <<>>]
    /\ act = [op |-> "init", p |-> 0, n |-> 0]

Names == DOMAIN dir
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
With(f, n, b) == [x \in DOMAIN f \union {n} |-> IF x = n THEN b ELSE f[x]]
Backups(o) == {x[2] : x \in {y \in Names : y[1] = o /\ y[2] > 0}}
Archives(o) == {-x[2] : x \in {y \in Names : y[1] = o /\ y[2] < 0}}
Max(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : x >= y
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
MsgsOf(o) == Len(hist[o])   \* messages it got, the one it is at included

\* ------------------------------------------------------------------ goroutines
Call(p, l) ==
    /\ todo[p] = <<>>
    /\ \A i \in 1..Len(Procs[p][l]) : MsgsOf(Procs[p][l][i]) < MaxMsgs
    /\ todo' = [todo EXCEPT ![p] = Procs[p][l]]
    /\ act' = [op |-> "call", p |-> p, n |-> l]
    /\ UNCHANGED <<now, hist, dir, body, pc, tmp>>

Idle == \A p \in P : todo[p] = <<>>
Tick ==
    /\ Idle /\ now < Periods
    /\ now' = now + 1
    /\ act' = [op |-> "tick", p |-> 0, n |-> 0]
    /\ UNCHANGED <<hist, dir, body, pc, tmp, todo>>

\* ------------------------------------------------------------------ one output
NeedsToRoll(o) ==
    /\ <<o, 0>> \in Names
    /\ IF Outs[o].kind = "size" THEN Len(body[dir[<<o, 0>>]]) >= Outs[o].cap
       ELSE hist[o][MsgsOf(o) - 1] # now
To(o, s) == pc' = [pc EXCEPT ![o] = s]
Quiet == act' = [op |-> "step", p |-> 0, n |-> 0]

Begin(p) ==
    /\ todo[p] # <<>>
    /\ LET o == Head(todo[p]) IN
       /\ pc[o] = "idle"
       /\ hist' = [hist EXCEPT ![o] = Append(@, now)]
       /\ To(o, "given")
    /\ UNCHANGED <<now, dir, body, tmp, todo>> /\ Quiet

Roll(o) ==
    /\ pc[o] = "given" /\ Outs[o].how # "broken" /\ NeedsToRoll(o)
    \* a backup is numbered after the last of those there are; periods are counted the same way
    /\ dir' = With(Without(dir, <<o, 0>>), <<o, Max(Backups(o)) + 1>>, dir[<<o, 0>>])
    /\ To(o, "rolled")
    /\ UNCHANGED <<now, hist, body, tmp, todo>> /\ Quiet

Over(o) == Outs[o].keep > 0 /\ Cardinality(Backups(o)) > Outs[o].keep
Prepare(o) ==
    /\ pc[o] = "rolled" /\ Over(o) /\ Outs[o].arch
    /\ LET n == IF OneTemp THEN <<0, 1>> ELSE <<0, o>> IN
       IF n \in Names   \* opened again, made empty
       THEN /\ body' = [body EXCEPT ![dir[n]] = <<>>]
            /\ tmp' = [tmp EXCEPT ![o] = [name |-> n, body |-> dir[n]]]
            /\ dir' = dir
       ELSE /\ body' = Append(body, <<>>)
            /\ tmp' = [tmp EXCEPT ![o] = [name |-> n, body |-> Len(body) + 1]]
            /\ dir' = With(dir, n, Len(body) + 1)
    /\ To(o, "prepared")
    /\ UNCHANGED <<now, hist, todo>> /\ Quiet
Copy(o) ==
    /\ pc[o] = "prepared"
    /\ body' = [body EXCEPT ![tmp[o].body] = @ \o body[dir[<<o, Min(Backups(o))>>]]]
    /\ To(o, "copied")
    /\ UNCHANGED <<now, hist, dir, tmp, todo>> /\ Quiet
Swap(o) ==
    /\ pc[o] = "copied"
    /\ tmp' = [tmp EXCEPT ![o] = NoTmp]
    /\ IF tmp[o].name \notin Names THEN dir' = dir /\ To(o, "append")
       ELSE IF Outs[o].how = "stuck" THEN dir' = Without(dir, tmp[o].name) /\ To(o, "append")
       ELSE /\ dir' = With(Without(dir, tmp[o].name), <<o, -Min(Backups(o))>>, dir[tmp[o].name])
            /\ To(o, "remove")
    /\ UNCHANGED <<now, hist, body, todo>> /\ Quiet
Remove(o) ==
    /\ \/ pc[o] = "remove"
       \/ pc[o] = "rolled" /\ Over(o) /\ ~Outs[o].arch
    /\ dir' = Without(dir, <<o, Min(Backups(o))>>)
    /\ To(o, "append")
    /\ UNCHANGED <<now, hist, body, tmp, todo>> /\ Quiet
Put(o) ==
    /\ \/ pc[o] = "append"
       \/ pc[o] = "rolled" /\ ~Over(o)
       \/ pc[o] = "given" /\ (Outs[o].how = "broken" \/ ~NeedsToRoll(o))
    /\ IF Outs[o].how = "broken" THEN UNCHANGED <<dir, body>>
       ELSE IF <<o, 0>> \in Names THEN /\ body' = [body EXCEPT ![dir[<<o, 0>>]] = Append(@, <<o, MsgsOf(o)>>)]
                                       /\ dir' = dir
       ELSE /\ body' = Append(body, <<<<o, MsgsOf(o)>>>>)
            /\ dir' = With(dir, <<o, 0>>, Len(body) + 1)
    /\ To(o, "idle")
    /\ todo' = [p \in P |-> IF todo[p] # <<>> /\ Head(todo[p]) = o THEN Tail(todo[p]) ELSE todo[p]]
    /\ UNCHANGED <<now, hist, tmp>> /\ Quiet

Next ==
    \/ \E p \in P : Begin(p) \/ \E l \in 1..Len(Procs[p]) : Call(p, l)
    \/ \E o \in O : Roll(o) \/ Prepare(o) \/ Copy(o) \/ Swap(o) \/ Remove(o) \/ Put(o)
    \/ Tick
Steps == \E p \in P : Begin(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps) /\ WF_vars(\E o \in O : Roll(o) \/ Prepare(o) \/ Copy(o) \/ Swap(o) \/ Remove(o) \/ Put(o))

----------------------------------------------------------------------------
\* What an output alone makes of its messages, said without steps: its messages cut into files
RECURSIVE Cut(_, _, _, _)
Cut(o, h, i, cur) ==
    IF i > Len(h) THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
    ELSE IF cur # <<>> /\ IF Outs[o].kind = "size" THEN Len(cur) >= Outs[o].cap ELSE h[i - 1] # h[i]
         THEN <<cur>> \o Cut(o, h, i + 1, <<<<o, i>>>>)
    ELSE Cut(o, h, i + 1, Append(cur, <<o, i>>))
\* name -> content
Alone(o, h) ==
    LET fs == IF Outs[o].how = "broken" THEN <<>> ELSE Cut(o, h, 1, <<>>)
        n == Len(fs)
        keep == IF Outs[o].keep = 0 \/ Outs[o].how = "stuck" THEN n ELSE Outs[o].keep
        gone == IF n - 1 > keep THEN n - 1 - keep ELSE 0   \* backups over the limit
        names == (IF n = 0 THEN {} ELSE {0}) \union ((gone + 1)..(n - 1)) \union (IF Outs[o].arch THEN {-k : k \in 1..gone} ELSE {})
    IN [k \in names |-> fs[IF k = 0 THEN n ELSE IF k > 0 THEN k ELSE -k]]
Own(o) == LET mine == {x[2] : x \in {y \in Names : y[1] = o}} IN [k \in mine |-> body[dir[<<o, k>>]]]

\* C27
Independent == \A o \in O : pc[o] = "idle" => Own(o) = Alone(o, hist[o])
NothingLeft == (\A o \in O : pc[o] = "idle") => \A x \in Names : x[1] # 0
\* every call comes to its end, whatever the other outputs are at
Ends == \A p \in P : (todo[p] # <<>>) ~> (todo[p] = <<>>)

----------------------------------------------------------------------------
\* whole calls, for replay
Given(h, s) == [o \in O |-> h[o] \o [i \in 1..Cardinality({j \in 1..Len(s) : s[j] = o}) |-> now]]
Whole(p, l) ==
    /\ \A i \in 1..Len(Procs[p][l]) : MsgsOf(Procs[p][l][i]) < MaxMsgs
    /\ hist' = Given(hist, Procs[p][l])
    /\ act' = [op |-> "call", p |-> p, n |-> l]
    /\ UNCHANGED <<now, dir, body, pc, tmp, todo>>
WholeCalls == Tick \/ \E p \in P : \E l \in 1..Len(Procs[p]) : Whole(p, l)
Files(o, h) == LET a == Alone(o, h) IN {[k |-> k, msgs |-> [i \in 1..Len(a[k]) |-> a[k][i][2]], period |-> h[a[k][1][2]]] : k \in DOMAIN a}
Seen == <<now, hist>>
Key == [now |-> now, h |-> [o \in O |-> hist[o]]]
PrintState == PrintT("@@S" \o ToJson([s |-> Key, o |-> [o \in O |-> Files(o, hist[o])]]))
PrintTransition == PrintT("@@T" \o ToJson([s |-> Key, a |-> act', t |-> [now |-> now', h |-> [o \in O |-> hist'[o]]]]))
=============================================================================
