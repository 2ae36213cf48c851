------------------------------- MODULE Collect -------------------------------
(***************************************************************************)
(* A rolled file whose old backups are collected in one archive file: the  *)
(* archive is built anew beside the old one (its entries, then the backups *)
(* over the limit, oldest first), put in its place in one step, and only   *)
(* then are those backups removed. Every operation can fail, and the       *)
(* process can die between any two.                                        *)
(*                                                                         *)
(* Messages are numbers in the order of the calls; each is larger than the *)
(* limit, so every write rolls the message before.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
    MaxRolls,     \* backups to keep
    InitArch,     \* what the archive contains at the start ...
    HasArch,      \* ... if there is one
    InitBacks,    \* backups found at the start, oldest first
    MaxOps, EnvOps, MaxFails, MaxCrashes

VARIABLES
    cur,      \* content of the log file
    backs,    \* the backups, oldest first
    arch,     \* the entries of the archive
    has,      \* there is an archive
    new,      \* the archive that is being built
    pc, hs, ix,
    msg, n,   \* the message under way; the number of messages so far
    stuck,    \* backups that could not be removed after they were put in the archive
    fails, crashes, hist
vars == <<cur, backs, arch, has, new, pc, hs, ix, msg, n, stuck, fails, crashes, hist>>

Init ==
    /\ cur = <<>> /\ backs = InitBacks /\ arch = InitArch /\ has = HasArch
    /\ new = <<>> /\ pc = "idle" /\ hs = <<>> /\ ix = 0 /\ msg = 0 /\ n = 0 /\ stuck = {}
    /\ fails = 0 /\ crashes = 0 /\ hist = <<>>

Done(op) == hist' = Append(hist, [op |-> op, cur |-> cur', backs |-> backs', arch |-> arch', has |-> has'])

Write ==
    /\ pc = "idle" /\ Len(hist) < MaxOps
    /\ n' = n + 1 /\ msg' = n + 1
    /\ pc' = IF cur = <<>> THEN "append" ELSE "roll"
    /\ UNCHANGED <<cur, backs, arch, has, new, hs, ix, stuck, fails, crashes, hist>>
Restart ==
    /\ pc = "idle" /\ Len(hist) < MaxOps /\ "restart" \in EnvOps /\ hist # <<>> /\ hist[Len(hist)].op # "restart"
    /\ UNCHANGED <<cur, backs, arch, has, new, pc, hs, ix, msg, n, stuck, fails, crashes>>
    /\ Done("restart")
\* somebody takes the archive away
Take ==
    /\ pc = "idle" /\ Len(hist) < MaxOps /\ "take" \in EnvOps /\ has
    /\ has' = FALSE /\ arch' = <<>>
    /\ UNCHANGED <<cur, backs, new, pc, hs, ix, msg, n, stuck, fails, crashes>>
    /\ Done("take")

Roll ==
    /\ pc = "roll"
    /\ backs' = Append(backs, cur[1]) /\ cur' = <<>>
    /\ hs' = Append(backs, cur[1])
    /\ pc' = IF Len(backs) + 1 > MaxRolls THEN "copy" ELSE "append"
    /\ new' = <<>> /\ ix' = 1
    /\ UNCHANGED <<arch, has, msg, n, stuck, fails, crashes, hist>>
Over == Len(hs) - MaxRolls
CopyOld ==     \* an entry of the old archive
    /\ pc = "copy"
    /\ IF Len(new) < Len(arch) THEN new' = Append(new, arch[Len(new) + 1]) /\ UNCHANGED pc
       ELSE pc' = "add" /\ UNCHANGED new
    /\ UNCHANGED <<cur, backs, arch, has, hs, ix, msg, n, stuck, fails, crashes, hist>>
AddNew ==
    /\ pc = "add"
    /\ IF ix <= Over THEN new' = Append(new, hs[ix]) /\ ix' = ix + 1 /\ UNCHANGED pc
       ELSE pc' = "swap" /\ UNCHANGED <<new, ix>>
    /\ UNCHANGED <<cur, backs, arch, has, hs, msg, n, stuck, fails, crashes, hist>>
Swap ==
    /\ pc = "swap"
    /\ arch' = new /\ has' = TRUE /\ new' = <<>> /\ ix' = 1 /\ pc' = "remove"
    /\ UNCHANGED <<cur, backs, hs, msg, n, stuck, fails, crashes, hist>>
RemoveOld ==
    /\ pc = "remove"
    /\ IF ix <= Over THEN backs' = SelectSeq(backs, LAMBDA m : m # hs[ix]) /\ ix' = ix + 1 /\ UNCHANGED pc
       ELSE pc' = "append" /\ UNCHANGED <<backs, ix>>
    /\ UNCHANGED <<cur, arch, has, new, hs, msg, n, stuck, fails, crashes, hist>>
AppendMsg ==
    /\ pc = "append"
    /\ cur' = Append(cur, msg) /\ pc' = "idle" /\ msg' = 0
    /\ UNCHANGED <<backs, arch, has, new, hs, ix, n, stuck, fails, crashes>>
    /\ Done("write")

\* what fails is left for the next roll; the message is written nevertheless
Fail ==
    /\ fails < MaxFails /\ fails' = fails + 1
    /\ \/ pc \in {"copy", "add", "swap"} /\ pc' = "append" /\ new' = <<>> /\ UNCHANGED <<ix, stuck>>
       \/ pc = "remove" /\ ix <= Over /\ ix' = ix + 1 /\ stuck' = stuck \cup {hs[ix]} /\ UNCHANGED <<pc, new>>
    /\ UNCHANGED <<cur, backs, arch, has, hs, msg, n, crashes, hist>>
Crash ==
    /\ pc # "idle" /\ crashes < MaxCrashes /\ crashes' = crashes + 1
    /\ pc' = "idle" /\ new' = <<>> /\ msg' = 0
    /\ stuck' = stuck \cup (IF pc = "remove" THEN {hs[i] : i \in ix..Over} ELSE {})
    /\ UNCHANGED <<cur, backs, arch, has, hs, ix, n, fails, hist>>

Next == Write \/ Restart \/ Take \/ Roll \/ CopyOld \/ AddNew \/ Swap \/ RemoveOld \/ AppendMsg \/ Fail \/ Crash

----------------------------------------------------------------------------
(* Properties; the predicates of a directory are also evaluated on real ones *)
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE IF s[Len(s)] \in {s[i] : i \in 1..(Len(s) - 1)} THEN Dedup(SubSeq(s, 1, Len(s) - 1)) ELSE Append(Dedup(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]

\* every message up to k is in exactly one place, except those in the archive that could not be removed; older ones come first
\* (what was found at the start has negative numbers, in its order)
Everything(a, b, c, all, st) ==
    /\ ToSet(a) \cup ToSet(b) \cup ToSet(c) = all
    /\ ToSet(a) \cap ToSet(b) \subseteq st
    /\ Increasing(b) /\ Increasing(c) /\ Increasing(Dedup(a))
    /\ \A i, j \in 1..Len(a) : i # j /\ a[i] = a[j] => a[i] \in st     \* each time its removal fails
    /\ \A x \in ToSet(a), y \in (ToSet(b) \ st) \cup ToSet(c) : x < y
    /\ \A x \in ToSet(b), y \in ToSet(c) : x < y
Started == ToSet(InitArch) \cup ToSet(InitBacks)
Taken == "take" \in EnvOps
Lossless == (pc = "idle" /\ crashes = 0 /\ ~Taken) => Everything(arch, backs, cur, Started \cup 1..n, stuck)
\* a message during whose write the process died may be missing
LosslessCrash == (pc = "idle" /\ crashes > 0 /\ ~Taken) =>
    \E lost \in SUBSET (1..n) : Cardinality(lost) <= crashes /\ Everything(arch, backs, cur, (Started \cup 1..n) \ lost, stuck)
\* the archive only grows, and changes in one step only
Grows == [][arch' = arch \/ IsPrefix(arch, arch') \/ (~has' /\ Taken)]_vars
Bounded == (pc = "idle" /\ fails = 0 /\ crashes = 0) => Len(backs) <= (IF Len(InitBacks) > MaxRolls /\ n < 2 THEN Len(InitBacks) ELSE MaxRolls)
\* nothing is removed before it is in the archive
Safe == [][\A m \in ToSet(backs) : m \in ToSet(backs') \cup ToSet(arch')]_vars

PrintHistory == (pc = "idle" /\ Len(hist) = MaxOps) => PrintT("@@H" \o ToJson([ops |-> hist]))

----------------------------------------------------------------------------
(* Real directories: [arch, backs, nbacks (backup files), cur, sent (messages sent), open (one that may be missing, or 0), dups (how many may be twice), clean] *)
Verdict(o) ==
    LET all == Started \cup 1..o.sent
        lostsets == IF o.open = 0 THEN {{}} ELSE {{}, {o.open}}
        st == IF o.dups = 0 THEN {} ELSE ToSet(o.arch)
    IN [lossless |-> \E l \in lostsets : Everything(o.arch, o.backs, o.cur, all \ l, st),
        prefix |-> IsPrefix(InitArch, o.arch),
        once |-> Len(o.arch) - Len(Dedup(o.arch)) <= o.dups,
        bounded |-> (o.clean => o.nbacks <= MaxRolls)]
PrintVerdicts(obs) == \A i \in 1..Len(obs) : PrintT("@@V" \o ToJson([id |-> i, v |-> Verdict(obs[i])]))
=============================================================================
