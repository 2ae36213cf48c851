------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* Archives and their copying. An archive is a sequence of entries (name,  *)
(* content); the kind "gzip" holds exactly one. A copy goes entry by entry *)
(* and can fail at any of them; a failed copy says so, and the source is   *)
(* what it was.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Names, Contents, MaxEnts, MaxCopies, MaxFails

VARIABLES first, kind, ents, dkind, dst, pc, fails, hist
vars == <<first, kind, ents, dkind, dst, pc, fails, hist>>

Kinds == {"zip", "tar", "gzip"}
Entries == UNION {[1..n -> Names \X Contents] : n \in 0..MaxEnts}

Init ==
    /\ kind \in Kinds
    /\ ents \in {e \in Entries : kind = "gzip" => Len(e) = 1}
    /\ first = [kind |-> kind, ents |-> ents]
    /\ dkind = "none" /\ dst = <<>> /\ pc = "idle" /\ fails = 0 /\ hist = <<>>

Start(k) ==
    /\ pc = "idle" /\ Len(hist) < MaxCopies
    /\ k = "gzip" => ents # <<>>          \* there is no empty archive of this kind
    /\ pc' = "copy" /\ dkind' = k /\ dst' = <<>>
    /\ UNCHANGED <<first, kind, ents, fails, hist>>

Failed == pc' = "idle" /\ dst' = <<>> /\ dkind' = "none" /\ hist' = Append(hist, [kind |-> dkind, ok |-> FALSE]) /\ UNCHANGED <<first, kind, ents>>

Entry ==
    /\ pc = "copy" /\ Len(dst) < Len(ents)
    /\ IF dkind = "gzip" /\ Len(dst) = 1 THEN Failed
       ELSE dst' = Append(dst, ents[Len(dst) + 1]) /\ UNCHANGED <<first, kind, ents, dkind, pc, hist>>
    /\ UNCHANGED fails
Fail == pc = "copy" /\ fails < MaxFails /\ fails' = fails + 1 /\ Failed
Finish ==
    /\ pc = "copy" /\ Len(dst) = Len(ents)
    /\ kind' = dkind /\ ents' = dst /\ pc' = "idle" /\ dkind' = "none" /\ dst' = <<>>
    /\ hist' = Append(hist, [kind |-> dkind, ok |-> TRUE])
    /\ UNCHANGED <<first, fails>>

Next == (\E k \in Kinds : Start(k)) \/ Entry \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Entry) /\ WF_vars(Finish)

Preserved == ents = first.ents
Growing == IsPrefix(dst, ents)
OneEntry == kind = "gzip" => Len(ents) = 1
\* refused only if it cannot be represented, or something failed
Refused == (\E i \in 1..Len(hist) : ~hist[i].ok) => (fails > 0 \/ Len(ents) # 1)
Ends == (pc = "copy") ~> (pc = "idle")

PrintHistory == (pc = "idle" /\ Len(hist) = MaxCopies) => PrintT("@@H" \o ToJson([k |-> first.kind, e |-> first.ents, h |-> hist]))
=============================================================================
