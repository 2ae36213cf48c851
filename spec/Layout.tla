-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* How a layout is read and an event rendered. A layout is a sequence of   *)
(* characters. A verb is %{name} or %{name:spec}: the name is letters and  *)
(* digits; the spec ends at the first closing brace that follows at least  *)
(* one character and no backslash, and has no line break before its last   *)
(* character. Everything else is text.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
    Alphabet, MaxLen,   \* every layout over Alphabet up to this length ...
    Layouts,            \* ... or these
    NameChars           \* the characters of Alphabet and Layouts that are letters or digits

VARIABLES layout, pos, pieces, text
vars == <<layout, pos, pieces, text>>

At(s, i) == IF i <= Len(s) THEN s[i] ELSE ""

\* the first position from i on that is no name character
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF At(s, i) \in NameChars THEN NameEnd(s, i + 1) ELSE i

\* where the spec that begins at i ends (the position of its closing brace), 0 if nowhere
SpecEnd(s, i) ==
    LET ks == {k \in (i + 1)..Len(s) : s[k] = "}" /\ s[k - 1] # "\\" /\ \A m \in i..(k - 2) : s[m] # "\n"}
    IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A m \in ks : k <= m

\* the verb that begins at i: [ok, name, has, spec, next]
NoVerb == [ok |-> FALSE, name |-> <<>>, has |-> FALSE, spec |-> <<>>, next |-> 0]
Verb(s, i) ==
    IF At(s, i) # "%" \/ At(s, i + 1) # "{" THEN NoVerb
    ELSE LET j == NameEnd(s, i + 2) IN
         IF j = i + 2 THEN NoVerb
         ELSE LET name == SubSeq(s, i + 2, j - 1) IN
              IF At(s, j) = "}" THEN [ok |-> TRUE, name |-> name, has |-> FALSE, spec |-> <<>>, next |-> j + 1]
              ELSE IF At(s, j) = ":" /\ SpecEnd(s, j + 1) # 0
                   THEN [ok |-> TRUE, name |-> name, has |-> TRUE, spec |-> SubSeq(s, j + 1, SpecEnd(s, j + 1) - 1), next |-> SpecEnd(s, j + 1) + 1]
                   ELSE NoVerb

\* reading goes from left to right
Init ==
    /\ layout \in {Layouts[i] : i \in 1..Len(Layouts)} \cup UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
    /\ pos = 1 /\ pieces = <<>> /\ text = <<>>
Flush == IF text = <<>> THEN pieces ELSE Append(pieces, [kind |-> "text", name |-> <<>>, has |-> FALSE, str |-> text])
Read ==
    /\ pos <= Len(layout)
    /\ UNCHANGED layout
    /\ LET v == Verb(layout, pos) IN
       IF v.ok THEN /\ pieces' = Append(Flush, [kind |-> "verb", name |-> v.name, has |-> v.has, str |-> v.spec])
                    /\ text' = <<>> /\ pos' = v.next
       ELSE /\ text' = Append(text, layout[pos]) /\ pos' = pos + 1 /\ UNCHANGED pieces
Done == pos > Len(layout)
Next == Read

\* without a verb a layout is refused
Refused == \A i \in 1..Len(pieces) : pieces[i].kind = "text"

----------------------------------------------------------------------------
(* Properties *)
RECURSIVE Source(_)
Source(ps) ==
    IF ps = <<>> THEN <<>>
    ELSE (IF ps[1].kind = "text" THEN ps[1].str
          ELSE <<"%", "{">> \o ps[1].name \o (IF ps[1].has THEN <<":">> \o ps[1].str ELSE <<>>) \o <<"}">>) \o Source(Tail(ps))
\* nothing of the layout is lost, added or moved
Lossless == Source(pieces) \o text = SubSeq(layout, 1, pos - 1)
\* no verb is left in the text
AllVerbs == Done => \A i \in 1..Len(Flush) : Flush[i].kind = "text" => \A k \in 1..Len(Flush[i].str) :
                ~Verb(Flush[i].str, k).ok
WellFormed == \A i \in 1..Len(pieces) : pieces[i].kind = "verb" =>
                /\ pieces[i].name # <<>>
                /\ pieces[i].has => (pieces[i].str # <<>> /\ pieces[i].str[Len(pieces[i].str)] # "\\")

----------------------------------------------------------------------------
(* The values of an event: the level names *)
LevelName == <<"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "CRITICAL", "OFF">>
ShortName == <<"ALL", "TAC", "DBG", "INF", "WRN", "ERR", "CRI", "OFF">>
\* any other level has no name
NameOf(l) == IF l \in 1..8 THEN LevelName[l] ELSE ""
ShortOf(l) == IF l \in 1..8 THEN ShortName[l] ELSE ""
Levels == [i \in 1..14 |-> [lvl |-> i - 3, long |-> NameOf(i - 3), short |-> ShortOf(i - 3)]]

\* the value a verb stands for (the others are fields)
Known == {"pid", "program", "module", "msg", "level", "lvl", "time"}

PrintPieces == Done => PrintT("@@P" \o ToJson([l |-> layout, r |-> (\A i \in 1..Len(Flush) : Flush[i].kind = "text"), p |-> Flush]))
PrintLevels == PrintT("@@L" \o ToJson(Levels))
=============================================================================
