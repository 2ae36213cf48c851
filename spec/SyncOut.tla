------------------------------- MODULE SyncOut -------------------------------
(***************************************************************************)
(* A synchronous output used by several goroutines: each logging call adds  *)
(* its record to the target in one step between its beginning and its       *)
(* return; a file may be rolled just before.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT
    Runs      \* what runs there are: a sequence of records with
              \*   thread   thread[m]: the goroutine that logs m; it logs its messages in the order of their numbers
              \*   size     size[m]: bytes of its record
              \*   rolling  "none", "size", "time"
              \*   limit    bytes from which on a file is rolled ("size")

VARIABLES
    rn,     \* which run this is
    st,     \* fate of each message: new, called, written, ret
    files,  \* the files of the log, oldest first, each the sequence of its records
    over    \* which messages had returned when each was called
vars == <<rn, st, files, over>>

Run == Runs[rn]
Thread == Run.thread
Size == Run.size
Rolling == Run.rolling
Limit == Run.limit
Ms == 1..Len(Thread)

RECURSIVE Flat(_)
Flat(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) \o Flat(Tail(fs))
RECURSIVE Bytes(_)
Bytes(f) == IF f = <<>> THEN 0 ELSE Size[Head(f)] + Bytes(Tail(f))
Last == files[Len(files)]

Init == rn \in 1..Len(Runs) /\ st = [m \in Ms |-> "new"] /\ files = <<<<>>>> /\ over = [m \in Ms |-> {}]

Call(m) ==
    /\ st[m] = "new" /\ \A k \in 1..(m - 1) : Thread[k] = Thread[m] => st[k] = "ret"
    /\ st' = [st EXCEPT ![m] = "called"]
    /\ over' = [over EXCEPT ![m] = {k \in Ms : st[k] = "ret"}]
    /\ UNCHANGED <<rn, files>>
MustRoll == Rolling = "size" /\ Bytes(Last) >= Limit
MayRoll == MustRoll \/ (Rolling = "time" /\ Last # <<>>)
Write(m) ==
    /\ st[m] = "called"
    /\ st' = [st EXCEPT ![m] = "written"]
    /\ \/ MayRoll /\ files' = Append(files, <<m>>)
       \/ ~MustRoll /\ files' = [files EXCEPT ![Len(files)] = Append(@, m)]
    /\ UNCHANGED <<rn, over>>
Return(m) ==
    /\ st[m] = "written" /\ st' = [st EXCEPT ![m] = "ret"] /\ UNCHANGED <<rn, files, over>>

Next == \E m \in Ms : Call(m) \/ Write(m) \/ Return(m)
Top == CHOOSE n \in {Len(Runs[r].thread) : r \in 1..Len(Runs)} : \A r \in 1..Len(Runs) : Len(Runs[r].thread) <= n
Spec == Init /\ [][Next]_vars /\ \A m \in 1..Top : WF_vars(m \in Ms /\ (Write(m) \/ Return(m)))

----------------------------------------------------------------------------
Pos(m) == CHOOSE i \in 1..Len(Flat(files)) : Flat(files)[i] = m
There == {m \in Ms : \E i \in 1..Len(Flat(files)) : Flat(files)[i] = m}
\* C12: each once, in the target when the call returns, in the order of the goroutine, after all that had returned before
Once == \A i, j \in 1..Len(Flat(files)) : Flat(files)[i] = Flat(files)[j] => i = j
AtReturn == \A m \in Ms : (st[m] = "ret") => m \in There
RealTime == \A m \in There : \A k \in over[m] : k \in There /\ Pos(k) < Pos(m)
ThreadOrder == \A m, k \in There : (Thread[m] = Thread[k] /\ k < m) => Pos(k) < Pos(m)
\* C13 under concurrency
RolledFull == Rolling = "size" => \A i \in 1..(Len(files) - 1) : Bytes(files[i]) >= Limit
Below == Rolling = "size" => \A i \in 1..Len(files) : LET f == files[i] IN f = <<>> \/ Bytes(SubSeq(f, 1, Len(f) - 1)) < Limit
Finishes == \A m \in 1..Top : (m \in Ms /\ st[m] = "called") ~> (m \in Ms /\ st[m] = "ret")
=============================================================================
