-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* The operations of LogTree made by several goroutines at once, in the    *)
(* steps in which they touch what they share: a logger is created and      *)
(* bound ancestor by ancestor under the lock of the registry; a            *)
(* configuration is installed, then every existing logger is bound anew,   *)
(* its level and its outputs apart; a logging call reads the level, then   *)
(* the outputs, each for the whole chain of ancestors at one moment.       *)
(* A program gives every goroutine its operations. All behaviours of a     *)
(* program together give the outcomes the real library may show.           *)
(***************************************************************************)
EXTENDS LogTree

CONSTANTS
    Programs,     \* sequence of [setup: names obtained first, procs: for each goroutine its operations]
    Endless,      \* TRUE: every goroutine repeats its operations for ever
    SplitChain    \* TRUE: the chain of ancestors is read one logger at a time (what the code once did)

VARIABLES
    prog,    \* the program
    pos,     \* next operation of each goroutine
    ph,      \* step within it
    loc,     \* what it holds at that step
    res,     \* results of its operations
    flock,   \* who holds the registry, 0 if nobody
    seen,    \* output lists that were in force for the logger of the call under way
    always,  \* whether that call was enabled ever since it began
    ever     \* ... at some moment

cvars == <<cfg, lg, inst, wr, shut, prog, pos, ph, loc, res, flock, seen, always, ever>>

Procs == 1..Len(Programs[prog].procs)
Ops(p) == Programs[prog].procs[p]
Busy(p) == pos[p] <= Len(Ops(p))
Op(p) == Ops(p)[pos[p]]
Name(p) == Canon(Op(p).name)

At(p, op, phase) == Busy(p) /\ Op(p).op = op /\ ph[p] = phase

Step(p, phase, l) ==
    /\ ph' = [ph EXCEPT ![p] = phase]
    /\ loc' = [loc EXCEPT ![p] = l]
    /\ UNCHANGED <<pos, res>>
Finish(p, r) ==
    /\ pos' = [pos EXCEPT ![p] = IF Endless /\ @ = Len(Ops(p)) THEN 1 ELSE @ + 1]
    /\ ph' = [ph EXCEPT ![p] = "start"]
    /\ loc' = [loc EXCEPT ![p] = <<>>]
    /\ IF ~Endless THEN res' = [res EXCEPT ![p] = Append(@, r)]
       ELSE /\ UNCHANGED res
            /\ IF Op(p).op \in {"log", "query"} THEN PrintT("@@D" \o ToJson([prog |-> prog, proc |-> p, pos |-> pos[p], res |-> r])) ELSE TRUE

Keep == UNCHANGED <<wr, shut, prog, act>>
Same == UNCHANGED <<cfg, lg, inst>>

----------------------------------------------------------------------------
(* Obtaining a logger *)

GetStart(p) ==
    /\ At(p, "get", "start") /\ flock = 0
    /\ flock' = p
    /\ Step(p, "make", SelectSeq(Reverse(ChainTab[Name(p)]), LAMBDA x : x \notin Created))
    /\ Same
GetMake(p) ==
    /\ At(p, "get", "make")
    /\ IF loc[p] = <<>> THEN flock' = 0 /\ Finish(p, <<>>) /\ Same
       ELSE LET r == CreateAll(Conf(cfg), lg, inst, <<loc[p][1]>>) IN
            /\ lg' = r[1] /\ inst' = r[2] /\ UNCHANGED <<cfg, flock>>
            /\ Step(p, "make", Tail(loc[p]))

----------------------------------------------------------------------------
(* Setting a configuration *)

\* loggers that no configuration of the program names are never bound anew: looking at them does nothing
NamedTab == [k \in 1..Len(Programs) |-> {n \in NameSet :
    \E q \in 1..Len(Programs[k].procs) : \E i \in 1..Len(Programs[k].procs[q]) :
        LET o == Programs[k].procs[q][i] IN o.op = "config" /\ HasEntry(Conf(o.arg).loggers, n)}]

CfgInstall(p) ==
    /\ At(p, "config", "start")
    /\ cfg' = Op(p).arg
    /\ Step(p, "lock", <<>>)
    /\ UNCHANGED <<lg, inst, flock>>
CfgLock(p) ==
    /\ At(p, "config", "lock") /\ flock = 0
    /\ flock' = p
    /\ Step(p, "notify", [left |-> Created \cap NamedTab[prog], cur |-> Root, b |-> Unset, parts |-> {}])
    /\ Same
CfgResolve(p) ==
    /\ At(p, "config", "notify")
    /\ IF loc[p].left = {} THEN flock' = 0 /\ Finish(p, <<>>) /\ Same
       ELSE \E n \in loc[p].left :
            LET c == Conf(cfg)
                in2 == Instances(c, inst, {n})
            IN /\ inst' = in2 /\ UNCHANGED <<cfg, lg, flock>>
               /\ IF Bindable(c, in2, n)
                  THEN Step(p, "bind", [left |-> loc[p].left \ {n}, cur |-> n, b |-> Binding(c, n), parts |-> {"lvl", "outs"}])
                  ELSE Step(p, "notify", [loc[p] EXCEPT !.left = @ \ {n}])
CfgBind(p) ==
    /\ At(p, "config", "bind")
    /\ \E x \in loc[p].parts :
        /\ lg' = IF x = "lvl" THEN [lg EXCEPT ![loc[p].cur].lvl = loc[p].b.lvl] ELSE [lg EXCEPT ![loc[p].cur].outs = loc[p].b.outs]
        /\ UNCHANGED <<cfg, inst, flock>>
        /\ Step(p, IF loc[p].parts = {x} THEN "notify" ELSE "bind", [loc[p] EXCEPT !.parts = @ \ {x}])

----------------------------------------------------------------------------
(* Settings of one logger, queries *)

SetLvl(p) ==
    /\ At(p, "level", "start")
    /\ lg' = [lg EXCEPT ![Name(p)].lvl = Op(p).arg]
    /\ Finish(p, <<>>) /\ UNCHANGED <<cfg, inst, flock>>
SetOps(p) ==
    /\ At(p, "outs", "start")
    /\ lg' = [lg EXCEPT ![Name(p)].outs = SetOuts[Op(p).arg]]
    /\ Finish(p, <<>>) /\ UNCHANGED <<cfg, inst, flock>>
Query(p) ==
    /\ At(p, "query", "start")
    /\ Finish(p, <<EffLevel(lg, Name(p))>>) /\ Same /\ UNCHANGED flock
ResolveOuts(p) ==
    /\ At(p, "resolve", "start")
    /\ inst' = Instances(Conf(cfg), inst, {Name(p)})
    /\ LET ok == Bindable(Conf(cfg), inst', Name(p)) IN
       Finish(p, IF ok THEN <<Binding(Conf(cfg), Name(p)).lvl>> \o Binding(Conf(cfg), Name(p)).outs ELSE <<"error">>)
    /\ UNCHANGED <<cfg, lg, flock>>
\* waits until goroutine arg has completed arg2 operations
After(p) ==
    /\ At(p, "after", "start")
    /\ pos[Op(p).arg] > Op(p).arg2
    /\ Finish(p, <<>>) /\ Same /\ UNCHANGED flock

----------------------------------------------------------------------------
(* A logging call *)

LogStart(p) ==
    /\ At(p, "log", "start")
    /\ Step(p, "level", Name(p))
    /\ Same /\ UNCHANGED flock
LogLevel(p) ==
    /\ At(p, "log", "level")
    /\ Same /\ UNCHANGED flock
    /\ IF SplitChain
       THEN LET own == lg[loc[p]].lvl IN
            IF own # LevelUninit THEN (IF Op(p).arg >= own THEN Step(p, "outs", Name(p)) ELSE Finish(p, <<>>))
            ELSE IF loc[p] = Root THEN Finish(p, <<>>) ELSE Step(p, "level", ParentTab[loc[p]])
       ELSE IF Enabled(lg, Name(p), Op(p).arg) THEN Step(p, "outs", Name(p)) ELSE Finish(p, <<>>)
LogOuts(p) ==
    /\ At(p, "log", "outs")
    /\ Same /\ UNCHANGED flock
    /\ IF SplitChain
       THEN IF lg[loc[p]].outs # <<>> \/ loc[p] = Root THEN Finish(p, lg[loc[p]].outs) ELSE Step(p, "outs", ParentTab[loc[p]])
       ELSE Finish(p, EffOuts(lg, Name(p)))

----------------------------------------------------------------------------

CInit ==
    /\ prog \in 1..Len(Programs)
    /\ cfg = Cfg0
    /\ LET RECURSIVE Todo(_, _)
           Todo(acc, names) == IF names = <<>> THEN acc
               ELSE Todo(acc \o SelectSeq(Reverse(Chain(Canon(names[1]))), LAMBDA x : \A i \in 1..Len(acc) : acc[i] # x), Tail(names))
           r == CreateAll(Conf(Cfg0), [n \in {} |-> Unset], NoInst, Todo(<<>>, Programs[prog].setup))
       IN lg = r[1] /\ inst = r[2]
    /\ wr = <<>> /\ shut = [times |-> 0, outs |-> {}] /\ act = <<>>
    /\ pos = [p \in Procs |-> 1] /\ ph = [p \in Procs |-> "start"] /\ loc = [p \in Procs |-> <<>>] /\ res = [p \in Procs |-> <<>>]
    /\ flock = 0
    /\ seen = [p \in Procs |-> {}] /\ always = [p \in Procs |-> TRUE] /\ ever = [p \in Procs |-> FALSE]

\* what was in force for the calls under way
Watch ==
    LET logging(p) == Busy(p) /\ Op(p).op = "log" /\ ph'[p] # "start"
        fresh(p) == ph[p] = "start"
        en(p) == Enabled(lg', Name(p), Op(p).arg)
    IN /\ seen' = [p \in Procs |-> IF logging(p) THEN (IF fresh(p) THEN {} ELSE seen[p]) \cup {EffOuts(lg', Name(p))} ELSE {}]
       /\ always' = [p \in Procs |-> IF logging(p) THEN (fresh(p) \/ always[p]) /\ en(p) ELSE TRUE]
       /\ ever' = [p \in Procs |-> IF logging(p) THEN (~fresh(p) /\ ever[p]) \/ en(p) ELSE FALSE]

Over == \A p \in Procs : ~Busy(p)

\* (nothing is ever stuck: TLC looks for deadlocks)
CNext == (Over /\ UNCHANGED <<cvars, act>>) \/
    /\ \E p \in Procs :
        \/ GetStart(p) \/ GetMake(p)
        \/ CfgInstall(p) \/ CfgLock(p) \/ CfgResolve(p) \/ CfgBind(p)
        \/ SetLvl(p) \/ SetOps(p) \/ Query(p) \/ ResolveOuts(p) \/ After(p)
        \/ LogStart(p) \/ LogLevel(p) \/ LogOuts(p)
    /\ Keep
    /\ Watch

----------------------------------------------------------------------------
(* Properties *)

Ends(p) == Busy(p) /\ Op(p).op = "log" /\ ph[p] # "start" /\ ph'[p] = "start"
Got(p) == IF Endless THEN EffOuts(lg, Name(p)) ELSE res'[p][Len(res'[p])]

\* C23: a message reaches exactly one list that was in force during the call
OneList == [][\A p \in Procs : (Ends(p) /\ ph[p] = "outs") => Got(p) \in seen[p]]_cvars
\* C23: a message enabled throughout is delivered, one never enabled is not
GateHolds == [][\A p \in Procs : (Ends(p) => (ph[p] = "level" => ~always[p])) /\ ((At(p, "log", "level") /\ ph'[p] = "outs") => ever[p])]_cvars
\* C03: ancestors first
CAncestors == \A n \in Created : n # Root => ParentTab[n] \in Created
\* C21
COneInstance == [][\A o \in DOMAIN inst : o \in DOMAIN inst' /\ inst'[o] = inst[o]]_cvars

\* C04: at the end every logger the last configuration names is under it, if nothing else was set
OnlyConfigs == \A p \in Procs : \A i \in 1..Len(Ops(p)) : Ops(p)[i].op \notin {"level", "outs"}
Converged ==
    (Over /\ OnlyConfigs) => \A n \in Created : Bindable(Conf(cfg), inst, n) => lg[n] = Binding(Conf(cfg), n)

\* the outcome, printed when all is done
Final == [i \in 1..Len(KnownNames(lg)) |-> [name |-> KnownNames(lg)[i], level |-> EffLevel(lg, KnownNames(lg)[i]),
                                            outs |-> Deliver(lg, inst, KnownNames(lg)[i], 7)]]
MadeSeq == SelectSeq(OutNames, LAMBDA o : o \in DOMAIN inst)
PrintOutcome == Over => PrintT("@@O" \o ToJson([prog |-> prog, res |-> res, final |-> Final, made |-> MadeSeq]))
=============================================================================
