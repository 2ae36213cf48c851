------------------------------ MODULE LogTree ------------------------------
(***************************************************************************)
(* The registry of loggers, their levels and outputs, the configuration    *)
(* that binds them, the output instances, and what a logging call does.    *)
(* One action per public operation; internally each follows the code:      *)
(* GetLogger creates and binds every missing ancestor, SetConfig installs  *)
(* and then rebinds every existing logger it can bind.                     *)
(*                                                                         *)
(* A name is a sequence of tokens; "/" and "." are the separator tokens.   *)
(* Levels are the numbers of api.Level: 0 not set, 1 ALL .. 8 OFF.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
    NameSeq,      \* the names the environment may ask for, as a sequence
    Configs,      \* the configurations the environment may set, as a sequence
    Cfg0,         \* index in Configs of the configuration in force initially (0: the built-in default)
    SetLevels,    \* levels given to SetLevel
    SetOuts,      \* sequence of output lists given to SetOutputs
    UserOuts,     \* sequence of the names of outputs made by the user, not by configuration
    FieldSets,    \* sequence of field lists (each a sequence of <<key, value>>) given to WithFields
    Slots,        \* number of writers kept by the environment
    BadDocs,      \* number of documents that must be refused
    Spellings,    \* the spellings of words in the configurations, with their upper-case form
    MaxCloses     \* how often the manager may be closed

VARIABLES
    cfg,      \* index of the configuration in force
    lg,       \* the loggers that exist: own level (0: not set) and own outputs
    inst,     \* the outputs created from configuration, with the definition they were made from
    wr,       \* the writers the environment holds
    shut,     \* the outputs that have been closed, and how often the manager was
    act       \* the last action (not part of the state)

vars == <<cfg, lg, inst, wr, shut>>

----------------------------------------------------------------------------
(* Names *)

Seps == {"/", "."}
Root == <<"root">>
LevelUninit == 0
LevelOff == 8

Canon(n) == IF n = <<>> THEN Root ELSE n

\* positions of separators that end a non-empty ancestor name
SepPos(n) == {i \in 2..Len(n) : n[i] \in Seps}

\* the part of the name before the last separator, the root if there is none
Parent(n) ==
    IF SepPos(n) = {} THEN Root
    ELSE LET i == CHOOSE i \in SepPos(n) : \A j \in SepPos(n) : j <= i
         IN SubSeq(n, 1, i - 1)

\* n, its parent, ..., root (no recursive operators here: TLC would compute the tables below again and again)
Chain(n) ==
    IF n = Root THEN <<Root>>
    ELSE LET ps == SetToSortSeq(SepPos(n), LAMBDA i, j : i > j)
         IN <<n>> \o SelectSeq([k \in 1..Len(ps) |-> SubSeq(n, 1, ps[k] - 1)], LAMBDA x : x # Root) \o <<Root>>

\* every name that can exist: those asked for and their ancestors, in a fixed order
AllNames ==
    LET f[i \in 0..Len(NameSeq)] ==
            IF i = 0 THEN <<>>
            ELSE LET g == f[i - 1] IN g \o SelectSeq(Chain(Canon(NameSeq[i])), LAMBDA x : \A j \in 1..Len(g) : g[j] # x)
    IN f[Len(NameSeq)]

NameSet == {AllNames[i] : i \in 1..Len(AllNames)}

\* the same as tables, computed once
ParentTab == [n \in NameSet |-> Parent(n)]
ChainTab == [n \in NameSet |-> Chain(n)]

----------------------------------------------------------------------------
(* Configurations *)

\* Spellings lists the spellings that occur with their upper-case form: letter case does not matter
Upper(str) ==
    LET is == {i \in 1..Len(Spellings) : Spellings[i][1] = str}
    IN IF is = {} THEN str ELSE Spellings[CHOOSE i \in is : TRUE][2]

LevelOf(str) ==   \* anything but the names of the levels means not set
    CASE Upper(str) = "ALL" -> 1
      [] Upper(str) = "TRACE" -> 2
      [] Upper(str) = "DEBUG" -> 3
      [] Upper(str) = "INFO" -> 4
      [] Upper(str) = "WARN" -> 5
      [] Upper(str) = "ERROR" -> 6
      [] Upper(str) = "CRITICAL" -> 7
      [] Upper(str) = "OFF" -> 8
      [] OTHER -> 0

ThresholdOf(str) == IF LevelOf(str) = 0 THEN 1 ELSE LevelOf(str)

\* log4g's built-in configuration
DefaultCfg == [loggers |-> <<[name |-> Root, level |-> "ALL", outs |-> <<"c1">>]>>,
               outputs |-> <<[name |-> "c1", type |-> "console", thr |-> "", fmt |-> "f1"]>>,
               formats |-> <<[name |-> "f1", type |-> "text"]>>]

\* the levels of the entries as numbers, computed once
Numbered(c) == [c EXCEPT !.loggers = [i \in 1..Len(c.loggers) |-> [name |-> c.loggers[i].name, outs |-> c.loggers[i].outs, lvl |-> LevelOf(c.loggers[i].level)]]]
ConfTab == [i \in 0..Len(Configs) |-> Numbered(IF i = 0 THEN DefaultCfg ELSE Configs[i])]
Conf(i) == ConfTab[i]

HasEntry(seq, name) == \E i \in 1..Len(seq) : seq[i].name = name
Entry(seq, name) == seq[CHOOSE i \in 1..Len(seq) : seq[i].name = name]

\* an output can be created when its type and its formatter's type are registered and their creators succeed
Creatable(c, o) ==
    LET od == Entry(c.outputs, o)
        fd == Entry(c.formats, od.fmt)
    IN od.type \in {"rec", "file", "async", "console", "acon"} /\ fd.type = "text"

\* outputs created (or found) while binding logger entry e: all up to the first that fails
RECURSIVE CreatedPrefix(_, _, _)
CreatedPrefix(c, in, outs) ==
    IF outs = <<>> THEN {}
    ELSE IF ~Creatable(c, outs[1]) /\ outs[1] \notin DOMAIN in THEN {}
    ELSE {outs[1]} \cup CreatedPrefix(c, in, Tail(outs))

Bindable(c, in, name) ==
    /\ HasEntry(c.loggers, name)
    /\ \A i \in 1..Len(Entry(c.loggers, name).outs) :
          LET o == Entry(c.loggers, name).outs[i] IN Creatable(c, o) \/ o \in DOMAIN in

Binding(c, name) ==
    [lvl |-> Entry(c.loggers, name).lvl, outs |-> Entry(c.loggers, name).outs]

\* the instances after resolving the outputs of the named loggers; an existing instance is kept as it is
Instances(c, in, names) ==
    LET new == UNION {IF HasEntry(c.loggers, n) THEN CreatedPrefix(c, in, Entry(c.loggers, n).outs) ELSE {} : n \in names}
    IN [o \in DOMAIN in \cup new |-> IF o \in DOMAIN in THEN in[o] ELSE Entry(c.outputs, o)]

Unset == [lvl |-> LevelUninit, outs |-> <<>>]
RootFallback == [lvl |-> 3, outs |-> <<"stdout">>]   \* a root that no configuration names

Bind(c, in, name) ==
    IF Bindable(c, in, name) THEN Binding(c, name)
    ELSE IF name = Root THEN RootFallback ELSE Unset

----------------------------------------------------------------------------
(* What the loggers do in a state *)

RECURSIVE EffLevel(_, _)
EffLevel(l, n) ==
    IF l[n].lvl # LevelUninit THEN l[n].lvl
    ELSE IF n = Root THEN LevelOff ELSE EffLevel(l, ParentTab[n])

RECURSIVE EffOuts(_, _)
EffOuts(l, n) ==
    IF l[n].outs # <<>> \/ n = Root THEN l[n].outs ELSE EffOuts(l, ParentTab[n])

Enabled(l, n, m) == m >= EffLevel(l, n)

OutDef(in, o) ==
    IF \E i \in 1..Len(UserOuts) : UserOuts[i].name = o THEN Entry(UserOuts, o)
    ELSE IF o = "stdout" THEN [name |-> o, type |-> "console", thr |-> "", fmt |-> ""]
    ELSE in[o]

\* only the console and file outputs have a threshold
Passes(in, o, m) ==
    OutDef(in, o).type \in {"console", "file", "async", "acon"} => m >= ThresholdOf(OutDef(in, o).thr)

\* an asynchronous output that was closed ignores what it is sent
Open(in, o) == OutDef(in, o).type \in {"async", "acon"} => o \notin shut.outs

Deliver(l, in, n, m) ==
    IF Enabled(l, n, m) THEN SelectSeq(EffOuts(l, n), LAMBDA o : Passes(in, o, m) /\ Open(in, o)) ELSE <<>>

\* the last value given for a key
FieldVal(fs, k) ==
    LET is == {i \in 1..Len(fs) : fs[i][1] = k}
    IN IF is = {} THEN "" ELSE fs[CHOOSE i \in is : \A j \in is : j <= i][2]

----------------------------------------------------------------------------
(* Actions *)

Created == DOMAIN lg

\* GetLogger creates the missing ancestors from the root down and binds each
RECURSIVE CreateAll(_, _, _, _)
CreateAll(c, l, in, todo) ==
    IF todo = <<>> THEN <<l, in>>
    ELSE LET n  == todo[1]
             l2 == [x \in DOMAIN l \cup {n} |-> IF x = n THEN Bind(c, in, n) ELSE l[x]]
             i2 == Instances(c, in, {n})
         IN CreateAll(c, l2, i2, Tail(todo))

GetLogger(k) ==
    LET n == Canon(NameSeq[k])
        missing == SelectSeq(Reverse(Chain(n)), LAMBDA x : x \notin Created)
        r == CreateAll(Conf(cfg), lg, inst, missing)
    IN /\ lg' = r[1]
       /\ inst' = r[2]
       /\ UNCHANGED <<cfg, wr, shut>>
       /\ act' = [op |-> "get", name |-> NameSeq[k]]

SetConfig(i) ==
    LET c == Conf(i)
        \* resolution of the outputs of every existing logger, then rebinding of those that can be bound
        in2 == Instances(c, inst, Created)
    IN /\ cfg' = i
       /\ inst' = in2
       /\ lg' = [n \in Created |-> IF Bindable(c, in2, n) THEN Binding(c, n) ELSE lg[n]]
       /\ UNCHANGED <<wr, shut>>
       /\ act' = [op |-> "config", cfg |-> i]

SetLevel(n, v) ==
    /\ n \in Created
    /\ lg' = [lg EXCEPT ![n].lvl = v]
    /\ UNCHANGED <<cfg, inst, wr, shut>>
    /\ act' = [op |-> "level", name |-> n, lvl |-> v]

SetOutputs(n, k) ==
    /\ n \in Created
    /\ lg' = [lg EXCEPT ![n].outs = SetOuts[k]]
    /\ UNCHANGED <<cfg, inst, wr, shut>>
    /\ act' = [op |-> "outs", name |-> n, outs |-> SetOuts[k]]

\* asking the manager for the outputs of a logger creates them
Resolve(k) ==
    LET n == Canon(NameSeq[k])
    IN /\ inst' = Instances(Conf(cfg), inst, {n})
       /\ UNCHANGED <<cfg, lg, wr, shut>>
       /\ act' = [op |-> "resolve", name |-> n,
                  ok |-> Bindable(Conf(cfg), inst, n),
                  lvl |-> IF Bindable(Conf(cfg), inst, n) THEN Binding(Conf(cfg), n).lvl ELSE 0,
                  outs |-> IF Bindable(Conf(cfg), inst, n) THEN Binding(Conf(cfg), n).outs ELSE <<>>]

\* a writer with fields, kept and used from then on
MakeWriter(s, n, f) ==
    /\ n \in Created
    /\ wr' = [wr EXCEPT ![s] = [on |-> n, fields |-> FieldSets[f]]]
    /\ UNCHANGED <<cfg, lg, inst, shut>>
    /\ act' = [op |-> "writer", slot |-> s, name |-> n, fields |-> FieldSets[f]]

\* a document that is refused changes nothing
Refuse(k) ==
    /\ UNCHANGED vars
    /\ act' = [op |-> "refuse", doc |-> k]

\* closing the manager closes every output created so far
CloseAll ==
    /\ shut.times < MaxCloses
    /\ shut' = [times |-> shut.times + 1, outs |-> DOMAIN inst]
    /\ UNCHANGED <<cfg, lg, inst, wr>>
    /\ act' = [op |-> "close"]

NoWriter == [on |-> <<>>, fields |-> <<>>]
NoInst == [o \in {} |-> 0]

Init ==
    /\ cfg = Cfg0
    /\ lg = [n \in {} |-> Unset]
    /\ inst = NoInst
    /\ wr = [s \in 1..Slots |-> NoWriter]
    /\ shut = [times |-> 0, outs |-> {}]
    /\ act = [op |-> "init", cfg |-> Cfg0]

Next ==
    \/ \E k \in 1..Len(NameSeq) : GetLogger(k)
    \/ \E i \in 1..Len(Configs) : SetConfig(i)
    \/ \E n \in NameSet, v \in SetLevels : SetLevel(n, v)
    \/ \E n \in NameSet, k \in 1..Len(SetOuts) : SetOutputs(n, k)
    \/ \E s \in 1..Slots, n \in NameSet, f \in 1..Len(FieldSets) : MakeWriter(s, n, f)
    \/ \E k \in 1..BadDocs : Refuse(k)
    \/ CloseAll

Spec == Init /\ [][Next]_<<vars, act>>

----------------------------------------------------------------------------
(* Properties *)

TypeOK ==
    /\ cfg \in 0..Len(Configs)
    /\ Created \subseteq NameSet
    /\ \A n \in Created : lg[n].lvl \in -1..10

\* C03: a logger never exists without its ancestors
AncestorsExist == \A n \in Created : n # Root => Parent(n) \in Created

\* C01: the level that decides is the logger's own or the nearest ancestor's
LevelRule ==
    \A n \in Created : \A m \in -1..10 :
        LET ch == Chain(n)
            set == {i \in 1..Len(ch) : lg[ch[i]].lvl # 0}
            eff == IF set = {} THEN LevelOff ELSE lg[ch[CHOOSE i \in set : \A j \in set : i <= j]].lvl
        IN Enabled(lg, n, m) <=> m >= eff

\* C02: only the outputs of the nearest logger with outputs, each once per mention
RouteRule ==
    \A n \in Created : \A m \in -1..10 :
        LET ch == Chain(n)
            with == {i \in 1..Len(ch) : lg[ch[i]].outs # <<>>}
            own == IF with = {} THEN <<>> ELSE lg[ch[CHOOSE i \in with : \A j \in with : i <= j]].outs
        IN /\ Enabled(lg, n, m) => Deliver(lg, inst, n, m) = SelectSeq(own, LAMBDA o : Passes(inst, o, m) /\ Open(inst, o))
           /\ ~Enabled(lg, n, m) => Deliver(lg, inst, n, m) = <<>>

\* every output a logger can reach exists
OutputsExist ==
    \A n \in Created : \A i \in 1..Len(lg[n].outs) :
        LET o == lg[n].outs[i] IN
        o \in DOMAIN inst \/ o = "stdout" \/ HasEntry(UserOuts, o)

\* C04: after an accepted configuration every logger it names (and can bind) has what it says
ConfigGoverns ==
    [][act'.op = "config" =>
        \A n \in Created :
            IF Bindable(Conf(cfg'), inst', n) THEN lg'[n] = Binding(Conf(cfg'), n) ELSE lg'[n] = lg[n]]_<<vars, act>>

\* C03/C04: a logger obtained later is bound by the configuration in force, whatever existed before
LaterBinding ==
    [][act'.op = "get" =>
        /\ \A n \in Created : lg'[n] = lg[n]
        /\ \A n \in DOMAIN lg' \ Created : lg'[n] = Bind(Conf(cfg), inst', n)]_<<vars, act>>

\* C21: an instance, once created, is the one used for good
OneInstance == [][\A o \in DOMAIN inst : o \in DOMAIN inst' /\ inst'[o] = inst[o]]_<<vars, act>>

----------------------------------------------------------------------------
(* Observation: what the harness reads back from the real system after each step *)

ObsLogger(l, in, n) ==
    [name |-> n, level |-> EffLevel(l, n),
     deliv |-> [m \in 1..12 |-> Deliver(l, in, n, m - 2)]]   \* level m-2

KnownNames(l) == SelectSeq(AllNames, LAMBDA n : n \in DOMAIN l)

Keys == <<"k1", "k2">>

Obs ==
    [loggers |-> [i \in 1..Len(KnownNames(lg)) |-> ObsLogger(lg, inst, KnownNames(lg)[i])],
     writers |-> [s \in 1..Slots |->
         IF wr[s] = NoWriter THEN [on |-> <<>>, outs |-> <<>>, fields |-> <<>>]
         ELSE [on |-> wr[s].on, outs |-> Deliver(lg, inst, wr[s].on, 7),
               fields |-> [i \in 1..Len(Keys) |-> FieldVal(wr[s].fields, Keys[i])]]],
     shut |-> shut]

\* the state in a canonical form (a function prints in an order that depends on how it was made)
OutNames ==
    LET f[k \in 0..Len(Configs)] ==
            IF k = 0 THEN DefaultCfg.outputs
            ELSE LET g == f[k - 1] IN g \o SelectSeq(Configs[k].outputs, LAMBDA x : \A i \in 1..Len(g) : g[i].name # x.name)
        all == f[Len(Configs)]
    IN [i \in 1..Len(all) |-> all[i].name]

Key(c, l, in, w, sh) ==
    <<c, [i \in 1..Len(AllNames) |-> IF AllNames[i] \in DOMAIN l THEN <<l[AllNames[i]].lvl, l[AllNames[i]].outs>> ELSE <<>>],
      [i \in 1..Len(OutNames) |-> IF OutNames[i] \in DOMAIN in
            THEN <<in[OutNames[i]].type, in[OutNames[i]].thr, in[OutNames[i]].fmt, OutNames[i] \in sh.outs>> ELSE <<>>],
      [s \in 1..Slots |-> <<w[s].on, w[s].fields>>], sh.times>>

PrintState == PrintT("@@S" \o ToJson([s |-> Key(cfg, lg, inst, wr, shut), o |-> Obs]))

PrintTransition == PrintT("@@T" \o ToJson([s |-> Key(cfg, lg, inst, wr, shut), a |-> act', t |-> Key(cfg', lg', inst', wr', shut')]))
=============================================================================
