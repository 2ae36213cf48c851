------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* What the text of an option means: the size limit, the counts (backups,  *)
(* queue, batch), permissions and thresholds. A text is read from left to  *)
(* right, one character at a time.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
    Kind,               \* "size", "count", "perm" or "level"
    Alphabet, MaxLen,   \* every text over Alphabet up to this length ...
    Texts               \* ... or these (sequences of characters)

VARIABLES text, pos, neg, seen, num, unit, bad
vars == <<text, pos, neg, seen, num, unit, bad>>

Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CHOOSE i \in 0..9 : <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[i + 1] = c]
Digits == DOMAIN Digit
Units == {"K", "M", "G"}

Lower(c) == LET up == <<"A", "C", "D", "E", "B", "F", "G", "I", "L", "N", "O", "R", "T", "U", "W">>
                lo == <<"a", "c", "d", "e", "b", "f", "g", "i", "l", "n", "o", "r", "t", "u", "w">>
            IN IF \E i \in 1..Len(up) : up[i] = c THEN lo[CHOOSE i \in 1..Len(up) : up[i] = c] ELSE c
LevelNames == << <<"a", "l", "l">>, <<"t", "r", "a", "c", "e">>, <<"d", "e", "b", "u", "g">>, <<"i", "n", "f", "o">>, <<"w", "a", "r", "n">>,
                 <<"e", "r", "r", "o", "r">>, <<"c", "r", "i", "t", "i", "c", "a", "l">>, <<"o", "f", "f">> >>
\* every way to write the name in small and capital letters
Cases(name) == {[i \in 1..Len(name) |-> IF b[i] THEN name[i] ELSE
                    (CHOOSE c \in {"A", "B", "C", "D", "E", "F", "G", "I", "L", "N", "O", "R", "T", "U", "W"} : Lower(c) = name[i])] : b \in [1..Len(name) -> BOOLEAN]}
\* almost a name: a letter missing, doubled, or one too many
Near(name) == {SubSeq(name, 1, i - 1) \o SubSeq(name, i + 1, Len(name)) : i \in 1..Len(name)}
              \cup {SubSeq(name, 1, i) \o SubSeq(name, i, Len(name)) : i \in 1..Len(name)}
              \cup {Append(name, "s"), <<"x">> \o name, Append(name, "e")}

Init ==
    /\ text \in {Texts[i] : i \in 1..Len(Texts)} \cup UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
                \cup (IF Kind # "level" THEN {} ELSE UNION {Cases(LevelNames[l]) \cup Near(LevelNames[l]) : l \in 1..8})
    /\ pos = 1 /\ neg = FALSE /\ seen = FALSE /\ num = <<>> /\ unit = "" /\ bad = FALSE

Read ==
    /\ pos <= Len(text)
    /\ pos' = pos + 1
    /\ UNCHANGED text
    /\ LET c == text[pos] IN
       IF Kind = "level" THEN num' = Append(num, Lower(c)) /\ UNCHANGED <<neg, seen, unit, bad>>
       ELSE IF c \in Digits THEN
            /\ seen' = TRUE /\ num' = (IF num = <<>> /\ c = "0" THEN num ELSE Append(num, Digit[c]))
            /\ UNCHANGED <<neg, unit, bad>>
       ELSE IF c = "-" /\ pos = 1 THEN neg' = TRUE /\ UNCHANGED <<seen, num, unit, bad>>
       ELSE IF Kind = "size" /\ c \in Units /\ pos = Len(text) THEN unit' = c /\ UNCHANGED <<neg, seen, num, bad>>
       ELSE bad' = TRUE /\ UNCHANGED <<neg, seen, num, unit>>
Next == Read
Done == pos > Len(text)

\* a positive number was given
Given == ~bad /\ seen /\ ~neg /\ num # <<>>

\* its value, or Huge if it is larger than that
Huge == 10000000
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE Val(_, _)
Val(ds, base) == IF ds = <<>> THEN 0
                 ELSE Least(Huge, Val(SubSeq(ds, 1, Len(ds) - 1), base) * base + ds[Len(ds)])

Count(default, max) == IF Given THEN Least(Val(num, 10), max) ELSE default
Backups == Count(5, 20)
Queue == Count(1000, 100000)
Batch == Count(20, 500)

\* a size: the digits of a number and its unit. Without a positive number: 10 MiB (with the suffix G the documentation leaves it open)
Size == IF Given THEN [num |-> num, unit |-> IF unit = "" THEN "B" ELSE unit]
        ELSE IF text # <<>> /\ text[Len(text)] = "G" THEN [num |-> <<>>, unit |-> "open"]
        ELSE [num |-> <<1, 0>>, unit |-> "M"]

\* permissions: written with a leading 0, in octal; anything else that is no number, zero or beyond 0777 means the default (-1)
Octal == /\ Given /\ text[1] = "0" /\ \A i \in 1..Len(num) : num[i] < 8
Perm == IF Octal /\ Val(num, 8) <= 511 THEN Val(num, 8) ELSE -1
\* numbers written in other ways are left open
PermOpen == Given /\ text[1] # "0"

Threshold == IF \E l \in 1..8 : LevelNames[l] = num THEN CHOOSE l \in 1..8 : LevelNames[l] = num ELSE 1

----------------------------------------------------------------------------
(* Properties of the reading *)
InRange == (Done /\ Kind = "count") => /\ Backups \in 1..20 /\ Queue \in 1..100000 /\ Batch \in 1..500
\* as given, when that is possible
AsGiven == (Done /\ Kind = "count" /\ Given) =>
    LET v == Val(num, 10) IN (v <= 20 => Backups = v) /\ (v <= 100000 => Queue = v) /\ (v <= 500 => Batch = v)
\* a larger text never means a smaller number of backups, queue or batch
Monotone == [][Kind # "level" => Val(num', 10) >= Val(num, 10)]_vars
PermRange == (Done /\ Kind = "perm") => Perm \in -1..511
LevelRange == (Done /\ Kind = "level") => Threshold \in 1..8

PrintMeaning == Done => PrintT("@@P" \o ToJson([t |-> text,
    v |-> CASE Kind = "size" -> Size
            [] Kind = "count" -> [backups |-> Backups, queue |-> Queue, batch |-> Batch]
            [] Kind = "perm" -> [perm |-> Perm, open |-> PermOpen]
            [] Kind = "level" -> [level |-> Threshold]]))
=============================================================================
