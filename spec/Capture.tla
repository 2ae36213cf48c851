------------------------------- MODULE Capture -------------------------------
(***************************************************************************)
(* What a record shows. A logging call is given a format and arguments; its *)
(* writer has fields. Arguments and fields are values or refer to memory    *)
(* (cells) that the program goes on using: it changes cells at any time,    *)
(* also while records wait in the queue of an asynchronous output.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Kinds,     \* Kinds[c]: "ref" if the cell is passed by reference, "val" if its value is copied when it is passed
    MaxVal,
    Shapes,    \* Shapes[s]: the cells that are the arguments of a call of this shape
    Ways,      \* Ways[w]: the cells that are the fields of this writer (<<>>: the logger itself)
    MaxLog,    \* number of records
    Late       \* TRUE: a design that renders when it writes (to see that the statement tells the two apart)

VARIABLES val,    \* what is in the cells
          cap,    \* cap[w][i]: value of field i of writer w when the writer was made
          queue,  \* records (or what they refer to) on their way to the target
          out,    \* records in the target
          said,   \* what each call meant
          act
vars == <<val, cap, queue, out, said>>

Cells == 1..Len(Kinds)
\* how a call looks: the format and what is shown for each argument and field
Rendered(w, s, v, c) == [shape |-> s, way |-> w,
    args |-> [i \in 1..Len(Shapes[s]) |-> v[Shapes[s][i]]],
    flds |-> [i \in 1..Len(Ways[w]) |-> IF Kinds[Ways[w][i]] = "ref" THEN v[Ways[w][i]] ELSE c[w][i]]]

Init ==
    /\ val = [c \in Cells |-> 0]
    /\ cap = [w \in 1..Len(Ways) |-> [i \in 1..Len(Ways[w]) |-> 0]]
    /\ queue = <<>> /\ out = <<>> /\ said = <<>>
    /\ act = [op |-> "init", n |-> 0, s |-> 0, rec |-> [shape |-> 0, way |-> 0, args |-> <<>>, flds |-> <<>>]]

NoRec == [shape |-> 0, way |-> 0, args |-> <<>>, flds |-> <<>>]
Change(c) ==
    /\ val' = [val EXCEPT ![c] = (@ + 1) % (MaxVal + 1)]
    /\ UNCHANGED <<cap, queue, out, said>>
    /\ act' = [op |-> "change", n |-> c, s |-> 0, rec |-> NoRec]
Make(w) ==
    /\ Ways[w] # <<>>
    /\ cap' = [cap EXCEPT ![w] = [i \in 1..Len(Ways[w]) |-> val[Ways[w][i]]]]
    /\ UNCHANGED <<val, queue, out, said>>
    /\ act' = [op |-> "make", n |-> w, s |-> 0, rec |-> NoRec]
Log(w, s) ==
    /\ Len(said) < MaxLog
    /\ said' = Append(said, Rendered(w, s, val, cap))
    /\ queue' = Append(queue, IF Late THEN [r |-> NoRec, w |-> w, s |-> s] ELSE [r |-> Rendered(w, s, val, cap), w |-> w, s |-> s])
    /\ UNCHANGED <<val, cap, out>>
    /\ act' = [op |-> "log", n |-> w, s |-> s, rec |-> Rendered(w, s, val, cap)]
Write ==
    /\ queue # <<>>
    /\ out' = Append(out, IF Late THEN Rendered(Head(queue).w, Head(queue).s, val, cap) ELSE Head(queue).r)
    /\ queue' = Tail(queue)
    /\ UNCHANGED <<val, cap, said>>
    /\ act' = [op |-> "write", n |-> 0, s |-> 0, rec |-> NoRec]

Calls ==
    \/ \E c \in Cells : Change(c)
    \/ \E w \in 1..Len(Ways) : Make(w)
    \/ \E w \in 1..Len(Ways), s \in 1..Len(Shapes) : Log(w, s)
Next == Calls \/ Write

----------------------------------------------------------------------------
\* C25: the target shows each call, in order, as it was meant
Faithful == /\ Len(out) <= Len(said)
            /\ \A i \in 1..Len(out) : out[i] = said[i]
            /\ Len(out) + Len(queue) = Len(said)

\* the calls alone; the target is compared when all is written. Whatever came before does not matter.
CallsOnly == Calls
Now == <<val, cap>>
Key(v, c) == <<[i \in 1..Len(Kinds) |-> v[i]], [w \in 1..Len(Ways) |-> [i \in 1..Len(Ways[w]) |-> c[w][i]]]>>
PrintState == PrintT("@@S" \o ToJson([s |-> Key(val, cap), o |-> 0]))
PrintTransition == PrintT("@@T" \o ToJson([s |-> Key(val, cap), a |-> act', t |-> Key(val', cap')]))
=============================================================================
