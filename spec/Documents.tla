----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* Configuration documents: lists of formatters (their names), outputs     *)
(* (name and formatter) and loggers (name, level and the names of outputs).*)
(* A document comes as a structure or as a text of some kind, which may be *)
(* unreadable; it is installed as a whole or not at all.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
    FormatNames, OutputDefs, LoggerDefs,    \* what occurs in documents
    MaxFormats, MaxOutputs, MaxLoggers,     \* lengths of the lists
    Watched,                                \* loggers looked at
    MaxLoads,
    Given                                   \* a list of larger documents whose verdicts are asked for

VARIABLES cfg, loads, act
vars == <<cfg, loads, act>>

Empty == [formats |-> <<>>, outputs |-> <<>>, loggers |-> <<>>]
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Docs == [formats : Lists(FormatNames, MaxFormats), outputs : Lists(OutputDefs, MaxOutputs), loggers : Lists(LoggerDefs, MaxLoggers)]

Unique(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Names(s) == [i \in 1..Len(s) |-> s[i].name]
Valid(d) ==
    /\ Unique(d.formats) /\ Unique(Names(d.outputs)) /\ Unique(Names(d.loggers))
    /\ \A i \in 1..Len(d.outputs) : d.outputs[i].format \in ToSet(d.formats)
    /\ \A i \in 1..Len(d.loggers) : ToSet(d.loggers[i].outs) \subseteq ToSet(Names(d.outputs))

\* how documents arrive: as a structure, as bytes of a kind, or in a file; and what can be wrong with that
Vias == {"struct", "bytes", "file"}
Defects(via) == CASE via = "struct" -> {"none"}
                  [] via = "bytes" -> {"none", "malformed", "unknown kind"}
                  [] via = "file" -> {"none", "malformed", "unknown kind", "unreadable"}

Accepted(d, defect) == defect = "none" /\ Valid(d)

Init == cfg = Empty /\ loads = 0 /\ act = [doc |-> Empty, ok |-> TRUE]
Load(d, via, defect) ==
    /\ loads < MaxLoads /\ loads' = loads + 1
    /\ cfg' = IF Accepted(d, defect) THEN d ELSE cfg
    /\ act' = [doc |-> d, ok |-> Accepted(d, defect)]
Next == \E d \in Docs, via \in Vias : \E defect \in Defects(via) : Load(d, via, defect)

----------------------------------------------------------------------------
\* what is told about a logger: its level and outputs
View(d) == [n \in Watched |->
    LET is == {i \in 1..Len(d.loggers) : d.loggers[i].name = n}
    IN IF is = {} THEN [known |-> FALSE, level |-> "", outs |-> <<>>]
       ELSE LET e == d.loggers[CHOOSE i \in is : TRUE] IN [known |-> TRUE, level |-> e.level, outs |-> e.outs]]

WellFormed == Valid(cfg)      \* nothing installed refers to what is not defined
AllOrNothing == [][IF act'.ok THEN cfg' = act'.doc ELSE cfg' = cfg]_vars
Unchanged == [][act'.ok \/ View(cfg') = View(cfg)]_vars
\* the order of the definitions does not matter
Order == \A d \in Docs : Valid(d) = Valid([formats |-> Reverse(d.formats), outputs |-> Reverse(d.outputs), loggers |-> Reverse(d.loggers)])
\* a document that is valid stays so when unused definitions are added, and the parts of it used are still used
Enough == \A d \in Docs : Valid(d) => \A n \in Watched : ToSet(View(d)[n].outs) \subseteq ToSet(Names(d.outputs))

\* every document with its verdict and its view
Tell(d) == PrintT("@@D" \o ToJson([d |-> d, ok |-> Valid(d), v |-> IF Valid(d) THEN View(d) ELSE <<>>]))
PrintDocs == \A d \in Docs : Tell(d)
PrintGiven == \A d \in ToSet(Given) : Tell(d)
\* where a definition stands among the others does not matter
Order2 == \A d \in ToSet(Given) :
    Valid(d) = Valid([formats |-> Reverse(d.formats), outputs |-> Reverse(d.outputs), loggers |-> Reverse(d.loggers)])
=============================================================================
