------------------------------ MODULE Rolling ------------------------------
(***************************************************************************)
(* A file output that is rolled by size or by time: the directory, the     *)
(* process that writes, and one action per file operation of a write, so   *)
(* that a failure or the death of the process can come between any two.    *)
(*                                                                         *)
(* Messages are numbers 1, 2, ... in the order of the calls; content found *)
(* at the start consists of pieces with numbers above 900. A body is a     *)
(* sequence of such numbers.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Bitwise

CONSTANTS
    Kind,        \* "size" or "time"
    NameMode,    \* "postfix" or "prefix"
    Base,        \* name of the log file
    Limit,       \* size limit in bytes
    MaxRolls,    \* number of backups to keep
    Archive,     \* "none", "zip" or "gzip"
    Lens,        \* lengths of messages
    InitDir,     \* what is there at the start: sequence of [name, t ("file", "dir"), body, mode]
    InitLens,    \* lengths of the pieces found at the start: sequence of <<piece, length>>
    TopInit,     \* "dir" if the directory exists at the start, "none" if not
    Labels,      \* time: sequence of <<label, rank>>, all names the pattern parses, ranked by time
    PeriodRank,  \* time: rank of the label at instant i, as a sequence
    FPerm, BPerm, DPerm, Mask,   \* permissions and mask of the process
    MaxOps,      \* length of the histories
    EnvOps,      \* which other operations occur: subset of {"restart", "tick", "block", "unblock", ...}
    MaxFails,    \* how many operations fail for no reason visible in the directory
    MaxCrashes   \* how often the process dies in the middle of a write

VARIABLES
    dir,     \* name -> [t, body, mode]; t is "file", "dir" or "arch" (a finished archive)
    top,     \* the log directory: "dir", "none" (missing), "file" (something else has its name)
    topMode, \* its mode, -1 if it was there before
    tmp,     \* number of temporary files
    per,     \* the current instant
    h,       \* the open file: "none" or "cur"
    size,    \* what the process believes to be the size of the file
    label,   \* the period whose label the file will get, 0 if nothing was written yet
    pc,      \* next operation of the write under way
    msg,     \* the message under way: 0 if none
    hs,      \* backups found, oldest first
    ix,      \* index into hs
    sent,    \* all messages so far: [len, per, st] with st "ok", "lost" (not accepted by a file), "crash", "open"
    fails, crashes,
    hist     \* completed operations with the directory after each

vars == <<dir, top, topMode, tmp, per, h, size, label, pc, msg, hs, ix, sent, fails, crashes, hist>>
proc == <<h, size, label>>
disk == <<dir, top, topMode, tmp>>

----------------------------------------------------------------------------
(* Names *)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
At(s, i) == SubSeq(s, i, i)
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

BackupName(tail) == IF NameMode = "postfix" THEN Base \o "." \o tail ELSE tail \o "." \o Base

LooksRolled(f) ==
    /\ Len(f) > Len(Base) + 1
    /\ IF NameMode = "postfix" THEN IsPrefixOf(Base \o ".", f) ELSE IsSuffixOf("." \o Base, f)
TailOf(f) ==
    IF NameMode = "postfix" THEN SubSeq(f, Len(Base) + 2, Len(f)) ELSE SubSeq(f, 1, Len(f) - Len(Base) - 1)

DigitVal(c) == CHOOSE v \in 0..9 : ToString(v) = c
RECURSIVE NumVal(_)
NumVal(s) == IF s = "" THEN 0 ELSE 10 * NumVal(SubSeq(s, 1, Len(s) - 1)) + DigitVal(At(s, Len(s)))

ValidTail(t) ==
    IF Kind = "size" THEN Len(t) > 0 /\ \A i \in 1..Len(t) : At(t, i) \in Digits
    ELSE \E i \in 1..Len(Labels) : Labels[i][1] = t

RankOf(t) ==
    IF Kind = "size" THEN NumVal(t)
    ELSE Labels[CHOOSE i \in 1..Len(Labels) : Labels[i][1] = t][2]

LabelOf(p) == LET i == CHOOSE i \in 1..Len(Labels) : Labels[i][2] = PeriodRank[p] IN Labels[i][1]

\* a backup of this log is a regular file with such a name
IsBackup(d, f) == d[f].t = "file" /\ LooksRolled(f) /\ ValidTail(TailOf(f))
Backups(d) == {f \in DOMAIN d : IsBackup(d, f)}
Ordered(S) == SetToSortSeq(S, LAMBDA a, b : RankOf(TailOf(a)) < RankOf(TailOf(b)))

Ext == IF Archive = "zip" THEN ".zip" ELSE ".gz"
ArchiveName(f) == f \o Ext

Without(d, f) == [x \in DOMAIN d \ {f} |-> d[x]]
With(d, f, e) == [x \in DOMAIN d \cup {f} |-> IF x = f THEN e ELSE d[x]]

----------------------------------------------------------------------------
(* Sizes *)

LenOf(m) == IF m > 900 THEN InitLens[CHOOSE i \in 1..Len(InitLens) : InitLens[i][1] = m][2] ELSE sent[m].len
RECURSIVE BodyLen(_)
BodyLen(b) == IF b = <<>> THEN 0 ELSE LenOf(b[1]) + BodyLen(Tail(b))

Reduce(p) == p & (511 - Mask)

----------------------------------------------------------------------------
(* Operations of the environment *)

Listing == [top |-> top, dir |-> dir, topMode |-> topMode, tmp |-> tmp]
Done(op, arg) == hist' = Append(hist, [op |-> op, arg |-> arg, top |-> top', dir |-> dir', topMode |-> topMode', tmp |-> tmp'])
Idle == pc = "idle" /\ Len(hist) < MaxOps
Frame == UNCHANGED <<pc, msg, hs, ix, sent, fails, crashes>>

Restart ==
    /\ Idle /\ "restart" \in EnvOps
    /\ hist # <<>> /\ hist[Len(hist)].op # "restart"
    /\ h' = "none" /\ size' = 0 /\ label' = 0
    /\ UNCHANGED <<disk, per>> /\ Frame
    /\ Done("restart", 0)

Tick(k) ==
    /\ Idle /\ "tick" \in EnvOps /\ per + k <= Len(PeriodRank)
    /\ per' = per + k
    /\ UNCHANGED <<disk, proc>> /\ Frame
    /\ Done("tick", k)

MaxNum(d) == LET S == {RankOf(TailOf(f)) : f \in Backups(d)} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
NextName == IF Kind = "size" THEN BackupName(ToString(MaxNum(dir) + 1)) ELSE BackupName(LabelOf(IF label = 0 THEN per ELSE label))

Env(op, guard, d2, t2, h2) ==
    /\ Idle /\ op \in EnvOps /\ guard
    /\ dir' = d2 /\ top' = t2 /\ h' = h2
    /\ UNCHANGED <<topMode, tmp, per, size, label>> /\ Frame
    /\ Done(op, 0)

TheDir == [t |-> "dir", body |-> <<>>, mode |-> 0]
NoDir == [x \in {} |-> TheDir]

\* a directory stands where the next backup is to go
Block == Env("block", top = "dir" /\ NextName \notin DOMAIN dir, With(dir, NextName, TheDir), top, h)
Unblock == Env("unblock", \E f \in DOMAIN dir : dir[f].t = "dir" /\ LooksRolled(f),
               [f \in {x \in DOMAIN dir : ~(dir[x].t = "dir" /\ LooksRolled(x))} |-> dir[f]], top, h)
\* (what becomes of messages written to a file that was removed while open is nobody's promise)
\* the current file is removed, or something else takes its name
RmCur == Env("rmcur", h = "none" /\ top = "dir" /\ Base \in DOMAIN dir /\ dir[Base].t = "file", Without(dir, Base), top, h)
BlockCur == Env("blockcur", top = "dir" /\ Base \notin DOMAIN dir, With(dir, Base, TheDir), top, h)
UnblockCur == Env("unblockcur", Base \in DOMAIN dir /\ dir[Base].t = "dir", Without(dir, Base), top, h)
\* the whole directory goes, and something else takes its name
RmDir == Env("rmdir", h = "none" /\ top = "dir", NoDir, "none", h)
FileDir == Env("filedir", top = "none", NoDir, "file", h)
UnFileDir == Env("unfiledir", top = "file", NoDir, "none", h)
\* a directory stands where the archive of the oldest backup is to go
BlockArch ==
    LET o == Ordered(Backups(dir)) IN
    Env("blockarch", Archive # "none" /\ top = "dir" /\ o # <<>> /\ ArchiveName(o[1]) \notin DOMAIN dir,
        With(dir, ArchiveName(o[1]), TheDir), top, h)
UnblockArch == Env("unblockarch", \E f \in DOMAIN dir : dir[f].t = "dir" /\ IsSuffixOf(Ext, f),
               [f \in {x \in DOMAIN dir : ~(dir[x].t = "dir" /\ IsSuffixOf(Ext, x))} |-> dir[f]], top, h)

----------------------------------------------------------------------------
(* A write, one file operation at a time *)

Begin(n) ==
    /\ Idle
    /\ msg' = Len(sent) + 1
    /\ sent' = Append(sent, [len |-> n, per |-> per, st |-> "open"])
    /\ pc' = IF h = "none" THEN "mkdir1" ELSE "decide"
    /\ hs' = <<>> /\ ix' = 0
    /\ UNCHANGED <<disk, per, proc, fails, crashes, hist>>

Finish(st) ==
    /\ pc' = "idle" /\ msg' = 0 /\ hs' = <<>> /\ ix' = 0
    /\ sent' = [sent EXCEPT ![msg].st = st]
    /\ Done("write", sent[msg].len)

Go(p) == pc' = p /\ UNCHANGED <<msg, sent, hist>>

\* an operation succeeds if possible; it fails if it must, or a limited number of times for no visible reason
Outcome(possible, Good, Bad) ==
    \/ possible /\ Good /\ UNCHANGED fails
    \/ (~possible \/ fails < MaxFails) /\ Bad /\ fails' = (IF possible THEN fails + 1 ELSE fails)

\* creating the directory; failing that the message cannot be accepted
Mkdir(p) ==
    /\ pc = p
    /\ Outcome(top # "file",
         /\ top' = "dir"
         /\ topMode' = (IF top = "none" THEN Reduce(DPerm) ELSE topMode)
         /\ UNCHANGED <<dir, tmp, per, proc, hs, ix, crashes>>
         /\ Go(IF p = "mkdir1" THEN "create1" ELSE "create2"),
         UNCHANGED <<disk, per, proc, crashes>> /\ Finish("lost"))

Create(p) ==
    /\ pc = p
    /\ Outcome(~(Base \in DOMAIN dir /\ dir[Base].t = "dir"),
         LET e == IF Base \in DOMAIN dir THEN dir[Base] ELSE [t |-> "file", body |-> <<>>, mode |-> Reduce(FPerm)] IN
         /\ dir' = With(dir, Base, e)
         /\ h' = "cur" /\ size' = BodyLen(e.body)
         /\ UNCHANGED <<top, topMode, tmp, per, label, hs, ix, crashes>>
         /\ Go(IF p = "create1" THEN "decide" ELSE "write"),
         UNCHANGED <<disk, per, proc, crashes>> /\ Finish("lost"))

NeedsRoll == IF Kind = "size" THEN size >= Limit ELSE label # 0 /\ PeriodRank[label] # PeriodRank[per]

Decide ==
    /\ pc = "decide"
    /\ Go(IF NeedsRoll THEN "close" ELSE "write")
    /\ label' = IF Kind = "time" /\ label = 0 THEN per ELSE label
    /\ UNCHANGED <<disk, per, h, size, hs, ix, fails, crashes>>

Close ==
    /\ pc = "close"
    /\ h' = "none"
    /\ Outcome(TRUE, Go("list"), Go("mkdir2"))
    /\ UNCHANGED <<disk, per, size, label, hs, ix, crashes>>

List ==
    /\ pc = "list"
    /\ Outcome(top = "dir", hs' = Ordered(Backups(dir)) /\ Go("rename"), hs' = <<>> /\ Go("mkdir2"))
    /\ UNCHANGED <<disk, per, proc, ix, crashes>>

Dest ==
    IF Kind = "size" THEN BackupName(ToString((IF hs = <<>> THEN 0 ELSE RankOf(TailOf(hs[Len(hs)]))) + 1))
    ELSE BackupName(LabelOf(label))

Rename ==
    /\ pc = "rename"
    /\ Outcome(Base \in DOMAIN dir /\ dir[Base].t = "file" /\ ~(Dest \in DOMAIN dir /\ dir[Dest].t = "dir"),
         /\ dir' = With(Without(dir, Base), Dest, dir[Base])
         /\ hs' = Append(hs, Dest)
         /\ label' = IF Kind = "time" THEN per ELSE label
         /\ Go("chmod"),
         UNCHANGED <<dir, hs, label>> /\ Go("mkdir2"))
    /\ UNCHANGED <<top, topMode, tmp, per, h, size, ix, crashes>>

Chmod ==
    /\ pc = "chmod"
    /\ Outcome(TRUE,
         dir' = [dir EXCEPT ![hs[Len(hs)]].mode = BPerm],
         UNCHANGED dir)
    /\ ix' = 1
    /\ Go(IF Len(hs) <= MaxRolls THEN "mkdir2" ELSE IF Archive = "none" THEN "remove" ELSE "temp")
    /\ UNCHANGED <<top, topMode, tmp, per, proc, hs, crashes>>

\* the archive is made in a temporary file ...
Temp ==
    /\ pc = "temp"
    /\ Outcome(TRUE, tmp' = tmp + 1 /\ Go("swap"), UNCHANGED tmp /\ Go("mkdir2"))
    /\ UNCHANGED <<dir, top, topMode, per, proc, hs, ix, crashes>>

\* ... which then gets its name
Swap ==
    /\ pc = "swap"
    /\ tmp' = tmp - 1
    /\ LET a == ArchiveName(hs[ix]) IN
       Outcome(~(a \in DOMAIN dir /\ dir[a].t = "dir"),
         /\ dir' = With(dir, a, [t |-> "arch", body |-> dir[hs[ix]].body, mode |-> 0])
         /\ IF ix < Len(hs) - MaxRolls THEN ix' = ix + 1 /\ Go("temp") ELSE ix' = 1 /\ Go("remove"),
         UNCHANGED <<dir, ix>> /\ Go("mkdir2"))
    /\ UNCHANGED <<top, topMode, per, proc, hs, crashes>>

RemoveOld ==
    /\ pc = "remove"
    /\ Outcome(TRUE, dir' = Without(dir, hs[ix]), UNCHANGED dir)
    /\ ix' = ix + 1
    /\ Go(IF ix < Len(hs) - MaxRolls THEN "remove" ELSE "mkdir2")
    /\ UNCHANGED <<top, topMode, tmp, per, proc, hs, crashes>>

Write ==
    /\ pc = "write"
    /\ Outcome(TRUE,
         /\ dir' = [dir EXCEPT ![Base].body = Append(@, msg)]
         /\ size' = size + sent[msg].len
         /\ UNCHANGED <<top, topMode, tmp, per, h, label, crashes>>
         /\ Finish("ok"),
         UNCHANGED <<disk, per, proc, crashes>> /\ Finish("lost"))

\* the process dies and is started again; if it dies in the last step the message may have been written
Crash ==
    /\ pc # "idle" /\ crashes < MaxCrashes
    /\ crashes' = crashes + 1
    /\ h' = "none" /\ size' = 0 /\ label' = 0
    /\ UNCHANGED <<top, topMode, tmp, per, fails>>
    /\ dir' \in {dir} \cup (IF pc = "write" THEN {[dir EXCEPT ![Base].body = Append(@, msg)]} ELSE {})
    /\ pc' = "idle" /\ msg' = 0 /\ hs' = <<>> /\ ix' = 0
    /\ sent' = [sent EXCEPT ![msg].st = "crash"]
    /\ hist' = Append(hist, [op |-> "crash", arg |-> sent[msg].len, top |-> top', dir |-> dir', topMode |-> topMode', tmp |-> tmp'])

Init ==
    /\ top = TopInit
    /\ topMode = -1
    /\ dir = [f \in {InitDir[i].name : i \in 1..Len(InitDir)} |->
                LET e == InitDir[CHOOSE i \in 1..Len(InitDir) : InitDir[i].name = f]
                IN [t |-> e.t, body |-> e.body, mode |-> e.mode]]
    /\ tmp = 0 /\ per = 1
    /\ h = "none" /\ size = 0 /\ label = 0
    /\ pc = "idle" /\ msg = 0 /\ hs = <<>> /\ ix = 0
    /\ sent = <<>> /\ fails = 0 /\ crashes = 0 /\ hist = <<>>

Next ==
    \/ \E n \in Lens : Begin(n)
    \/ \E p \in {"mkdir1", "mkdir2"} : Mkdir(p)
    \/ \E p \in {"create1", "create2"} : Create(p)
    \/ Decide \/ Close \/ List \/ Rename \/ Chmod \/ Temp \/ Swap \/ RemoveOld \/ Write
    \/ Restart \/ \E k \in 1..2 : Tick(k)
    \/ Block \/ Unblock \/ RmCur \/ BlockCur \/ UnblockCur \/ RmDir \/ FileDir \/ UnFileDir \/ BlockArch \/ UnblockArch
    \/ Crash

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* Properties *)

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))

\* archives belong to the backup they are named after
ArchivesOf(d) == {f \in DOMAIN d : d[f].t = "arch"}
Stem(f) == SubSeq(f, 1, Len(f) - Len(Ext))
\* whole content of the log, oldest first: archives (unless the backup is still there), backups, current file
LogFiles(d) ==
    LET as == {Stem(f) : f \in ArchivesOf(d)} \ Backups(d)
        all == Ordered(as \cup Backups(d))
    IN [i \in 1..Len(all) |-> IF all[i] \in Backups(d) THEN d[all[i]].body ELSE d[ArchiveName(all[i])].body]
CurBody(d) == IF Base \in DOMAIN d /\ d[Base].t = "file" THEN d[Base].body ELSE <<>>
Log(d) == Flatten(LogFiles(d)) \o CurBody(d)

InitLog == \* what the log held at the start
    LET d == [f \in {InitDir[i].name : i \in 1..Len(InitDir)} |->
                LET e == InitDir[CHOOSE i \in 1..Len(InitDir) : InitDir[i].name = f] IN [t |-> e.t, body |-> e.body, mode |-> e.mode]]
    IN Log(d)

OkMsgs == SelectSeq([i \in 1..Len(sent) |-> i], LAMBDA i : sent[i].st = "ok")
Expected == InitLog \o OkMsgs
\* the message under way when the process died may or may not be there
Held == SelectSeq(Log(dir), LAMBDA m : m > 900 \/ sent[m].st # "crash")

\* the environment has taken something away
Disturbed == \E i \in 1..Len(hist) : hist[i].op \in {"rmcur", "rmdir"}

\* C13/C17/C24: what the log holds is what was written, in order, but for whole oldest files over the limit
\* (when removing a file has failed, that file may stay although younger ones over the limit are gone)
RECURSIVE SubSequence(_, _)
SubSequence(a, b) ==
    IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
    ELSE IF a[1] = b[1] THEN SubSequence(Tail(a), Tail(b)) ELSE SubSequence(a, Tail(b))
\* what the backups within the limit and the current file hold
Recent ==
    LET o == Ordered(Backups(dir))
        n == IF Len(o) > MaxRolls THEN SubSeq(o, Len(o) - MaxRolls + 1, Len(o)) ELSE o
    IN SelectSeq(Flatten([i \in 1..Len(n) |-> dir[n[i]].body]) \o CurBody(dir), LAMBDA m : m > 900 \/ sent[m].st # "crash")
Lossless ==
    ~Disturbed =>
        LET held == Held  expected == Expected IN
        \/ held = expected
        \/ /\ Archive = "none" /\ Cardinality(Backups(dir)) >= MaxRolls
           /\ IF fails = 0 THEN IsSuffix(held, expected) ELSE SubSequence(held, expected) /\ IsSuffix(Recent, expected)
InOrder == LET l == SelectSeq(Log(dir), LAMBDA m : m <= 900) IN \A i \in 1..(Len(l) - 1) : l[i] < l[i + 1]

\* files that were not there at the start
IsNew(f) == \A i \in 1..Len(InitDir) : InitDir[i].name # f
NewBackups == {f \in DOMAIN dir : IsNew(f) /\ (IsBackup(dir, f) \/ (dir[f].t = "arch" /\ IsNew(Stem(f))))}
\* C13: a file is rolled only when it has reached the limit
RolledFull == Kind = "size" => \A f \in NewBackups : BodyLen(dir[f].body) >= Limit
\* C14: a backup has the label of the first message this run wrote to it; old content may be in front
LabelRule ==
    (Kind = "time" /\ crashes = 0 /\ \A i \in 1..Len(hist) : hist[i].op # "restart") =>
        \A f \in NewBackups :
            LET ms == SelectSeq(dir[f].body, LAMBDA m : m <= 900)
                st == IF dir[f].t = "arch" THEN Stem(f) ELSE f
                r == RankOf(TailOf(st))
                p == PeriodRank[sent[ms[1]].per]
            IN ms # <<>> => IF fails = 0 THEN r = p ELSE r <= p \* the first message may have failed

\* C15: after a roll none of whose operations failed the limit holds, and it is the newest that stay
Retention ==
    [][(pc \in {"chmod", "remove"} /\ pc' = "mkdir2" /\ fails' = 0) =>
        /\ Cardinality(Backups(dir')) <= MaxRolls
        /\ \A f \in Backups(dir) \ Backups(dir'), g \in Backups(dir') : RankOf(TailOf(f)) < RankOf(TailOf(g))]_vars

\* C13: a write goes to a file below the limit, unless a roll has just failed
SizeRule ==
    [][(pc = "write" /\ h = "cur" /\ pc' = "idle" /\ Kind = "size" /\ fails = 0 /\ {"block", "blockarch"} \cap EnvOps = {} /\ crashes' = crashes)
        => BodyLen(dir[Base].body) < Limit]_vars

\* C15: nothing but the current file, backups and archives of this log is ever touched
Foreign(d) == {f \in DOMAIN d : f # Base /\ ~IsBackup(d, f) /\ d[f].t # "arch"}
Untouched ==
    [][pc # "idle" => \A f \in Foreign(dir) : f \in DOMAIN dir' /\ dir'[f] = dir[f]]_vars

\* C16: a backup is removed only when its content is in an archive
ArchivedFirst ==
    [][(pc # "idle" /\ Archive # "none") =>
        \A f \in Backups(dir) \ (IF pc = "rename" THEN {Dest} ELSE {}) : f \in DOMAIN dir' \/ (ArchiveName(f) \in DOMAIN dir /\ dir[ArchiveName(f)].body = dir[f].body)]_vars

\* C14: a file holds messages of one period only, within one run and without failures
OnePeriod ==
    (Kind = "time" /\ fails = 0 /\ crashes = 0 /\ EnvOps \subseteq {"tick"}) =>
        \A f \in DOMAIN dir : dir[f].t # "dir" =>
            \A i, j \in 1..Len(dir[f].body) : dir[f].body[i] <= 900 /\ dir[f].body[j] <= 900 =>
                PeriodRank[sent[dir[f].body[i]].per] = PeriodRank[sent[dir[f].body[j]].per]

\* C20
Modes ==
    (fails = 0 /\ crashes = 0 /\ pc = "idle") =>
        \A f \in DOMAIN dir : (dir[f].t = "file" /\ IsNew(f)) =>
            dir[f].mode = (IF f = Base THEN Reduce(FPerm) ELSE BPerm)

\* C17/C24: every message gets an answer and a later write is always possible
Progress == [](pc # "idle" => <>(pc = "idle"))

----------------------------------------------------------------------------

PrintHistory ==
    (pc = "idle" /\ (Len(hist) = MaxOps)) => PrintT("@@H" \o ToJson([ops |-> hist, sent |-> sent]))

----------------------------------------------------------------------------
(* Judging directories found after a fault or a kill. An observation has the *)
(* directory, the messages with their fate, the first message of the last   *)
(* run (from), and whether the last write was undisturbed (clean).          *)

CurMsgs(from) == SelectSeq(CurBody(dir), LAMBDA m : m <= 900 /\ m >= from)
\* the last write, if nothing disturbed it, has rolled the file if that was due
Settled(from) ==
    LET ms == CurMsgs(from) IN
    IF Kind = "size"
    THEN ms # <<>> => BodyLen(SubSeq(CurBody(dir), 1, Len(CurBody(dir)) - 1)) < Limit
    ELSE ms # <<>> => \A i \in 1..Len(ms) : PeriodRank[sent[ms[i]].per] = PeriodRank[sent[ms[Len(ms)]].per]

ObsInit(obs) ==
    \E k \in 1..Len(obs) :
        LET o == obs[k] IN
        /\ dir = [f \in {o.dir[i].name : i \in 1..Len(o.dir)} |->
                    LET e == o.dir[CHOOSE i \in 1..Len(o.dir) : o.dir[i].name = f] IN [t |-> e.t, body |-> e.body, mode |-> e.mode]]
        /\ top = "dir" /\ topMode = -1 /\ tmp = 0 /\ per = 1 /\ h = "none" /\ size = 0 /\ label = 0
        /\ pc = "idle" /\ msg = o.from /\ hs = <<>> /\ ix = k
        /\ sent = o.sent /\ fails = o.fails /\ crashes = o.crashes /\ hist = <<>>
ObsNext == FALSE /\ UNCHANGED vars
PrintVerdict ==
    PrintT("@@V" \o ToJson([id |-> ix, lossless |-> Lossless, inorder |-> InOrder, full |-> RolledFull, label |-> LabelRule,
                            settled |-> Settled(msg), keep |-> Cardinality(Backups(dir)) <= MaxRolls,
                            modes |-> \A f \in DOMAIN dir : (dir[f].t = "file" /\ IsNew(f) /\ f # Base) => dir[f].mode = BPerm]))
=============================================================================
