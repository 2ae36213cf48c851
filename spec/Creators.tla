------------------------------- MODULE Creators -------------------------------
(***************************************************************************)
(* The creators registered for types of outputs and formatters, and what   *)
(* they make. A program registers a creator for a type - its own type, or  *)
(* one that exists - at any time; loggers get their outputs from the       *)
(* configuration in force when they are first obtained and whenever one is *)
(* set. What an output or formatter is made by is the version of the       *)
(* creator registered at that moment: 0 none, BuiltIn, 1.., or Fails, a    *)
(* creator that reports an error.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Loggers,     \* the names of the loggers the program may obtain, a sequence
    Outs,        \* the outputs configurations define: [name, type, fmt]
    Fmts,        \* the formatters: [name, type]
    Confs,       \* the configurations: each a sequence of [name, outs]; all define the same outputs and formatters
    OutTypes, FmtTypes,   \* the types creators are registered for in the course of a history, sequences
    BuiltInOut, BuiltInFmt,  \* the types that have a creator at the start
    Versions     \* the versions of creators that are registered

BuiltIn == 9
Fails == 8

VARIABLES
    ro, rf,      \* type -> version of the creator registered
    conf,        \* index of the configuration in force, 0 for none
    fi, oi,      \* formatter, output -> version of the creator it was made by, 0 if it was not
    lg,          \* logger -> its outputs; loggers exist from the first time they are obtained
    act
vars == <<ro, rf, conf, fi, oi, lg>>

Names(s) == {s[i].name : i \in 1..Len(s)}
The(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].name = n]
TypesOf(s) == {s[i].type : i \in 1..Len(s)}
Works(v) == v # 0 /\ v # Fails

\* making outs one after the other, until one cannot be made: <<formatters, outputs, whether all could>>
RECURSIVE Make(_, _, _)
Make(f, o, outs) ==
    IF outs = <<>> THEN <<f, o, TRUE>>
    ELSE LET od == The(Outs, outs[1])
             fd == The(Fmts, od.fmt)
             f2 == IF f[fd.name] # 0 THEN f ELSE [f EXCEPT ![fd.name] = rf[fd.type]]
         IN IF f[fd.name] = 0 /\ ~Works(rf[fd.type]) THEN <<f, o, FALSE>>
            ELSE IF o[od.name] # 0 THEN Make(f2, o, Tail(outs))
            ELSE IF ~Works(ro[od.type]) THEN <<f2, o, FALSE>>
            ELSE Make(f2, [o EXCEPT ![od.name] = ro[od.type]], Tail(outs))

Named(c, n) == c # 0 /\ n \in Names(Confs[c])
OutsFor(c, n) == The(Confs[c], n).outs

\* the outputs of all loggers in ls made, in whichever order
RECURSIVE MakeAll(_, _, _, _)
MakeAll(f, o, c, ls) ==
    IF ls = {} THEN <<f, o>>
    ELSE LET n == CHOOSE x \in ls : TRUE
             r == IF Named(c, n) THEN Make(f, o, OutsFor(c, n)) ELSE <<f, o, TRUE>>
         IN MakeAll(r[1], r[2], c, ls \ {n})

RegOut(t, v) ==
    /\ ro' = [ro EXCEPT ![t] = v]
    /\ UNCHANGED <<rf, conf, fi, oi, lg>>
    /\ act' = [op |-> "regout", what |-> t, n |-> v]
RegFmt(t, v) ==
    /\ rf' = [rf EXCEPT ![t] = v]
    /\ UNCHANGED <<ro, conf, fi, oi, lg>>
    /\ act' = [op |-> "regfmt", what |-> t, n |-> v]
SetConf(c) ==
    LET m == MakeAll(fi, oi, c, DOMAIN lg)
        Done(n) == Named(c, n) /\ Make(m[1], m[2], OutsFor(c, n))[3]
    IN /\ conf' = c
       /\ fi' = m[1] /\ oi' = m[2]
       /\ lg' = [n \in DOMAIN lg |-> IF Done(n) THEN OutsFor(c, n) ELSE lg[n]]
       /\ UNCHANGED <<ro, rf>>
       /\ act' = [op |-> "config", what |-> "", n |-> c]
Get(n) ==
    /\ n \notin DOMAIN lg
    /\ LET m == IF Named(conf, n) THEN Make(fi, oi, OutsFor(conf, n)) ELSE <<fi, oi, FALSE>>
       IN /\ fi' = m[1] /\ oi' = m[2]
          /\ lg' = [x \in DOMAIN lg \cup {n} |-> IF x # n THEN lg[x] ELSE IF m[3] THEN OutsFor(conf, n) ELSE <<>>]
    /\ UNCHANGED <<ro, rf, conf>>
    /\ act' = [op |-> "get", what |-> n, n |-> 0]
\* asking the manager for the outputs of a logger makes them; the result is 1 if it gets them
Resolve(n) ==
    /\ Named(conf, n)
    /\ LET m == Make(fi, oi, OutsFor(conf, n))
       IN /\ fi' = m[1] /\ oi' = m[2]
          /\ act' = [op |-> "resolve", what |-> n, n |-> IF m[3] THEN 1 ELSE 0]
    /\ UNCHANGED <<ro, rf, conf, lg>>

Init ==
    /\ ro = [t \in TypesOf(Outs) |-> IF t \in BuiltInOut THEN BuiltIn ELSE 0]
    /\ rf = [t \in TypesOf(Fmts) |-> IF t \in BuiltInFmt THEN BuiltIn ELSE 0]
    /\ conf = 0
    /\ fi = [n \in Names(Fmts) |-> 0] /\ oi = [n \in Names(Outs) |-> 0]
    /\ lg = [n \in {} |-> <<>>]
    /\ act = [op |-> "init", what |-> "", n |-> 0]
Next ==
    \/ \E i \in 1..Len(OutTypes), v \in Versions : ro[OutTypes[i]] # v /\ RegOut(OutTypes[i], v)
    \/ \E i \in 1..Len(FmtTypes), v \in Versions : rf[FmtTypes[i]] # v /\ RegFmt(FmtTypes[i], v)
    \/ \E c \in 1..Len(Confs) : SetConf(c)
    \/ \E i \in 1..Len(Loggers) : Get(Loggers[i]) \/ Resolve(Loggers[i])

----------------------------------------------------------------------------
\* C26: what is made is made by the creator registered then, and stays
MadeByRegistered == [][
    /\ \A n \in Names(Outs) : oi'[n] = oi[n] \/ (oi[n] = 0 /\ oi'[n] = ro[The(Outs, n).type])
    /\ \A n \in Names(Fmts) : fi'[n] = fi[n] \/ (fi[n] = 0 /\ fi'[n] = rf[The(Fmts, n).type])]_vars
\* an output that exists has a formatter, and both were made by creators that work
Equipped == \A n \in Names(Outs) : oi[n] # 0 => Works(oi[n]) /\ Works(fi[The(Outs, n).fmt])
\* a logger has outputs that exist
Existing == \A n \in DOMAIN lg : \A i \in 1..Len(lg[n]) : oi[lg[n][i]] # 0
\* a logger is changed by a configuration only, all at once, and only if everything it names can be made
AllOrNothing == [][\A n \in DOMAIN lg : lg'[n] # lg[n] =>
    /\ act'.op = "config" /\ Named(conf', n) /\ lg'[n] = OutsFor(conf', n)]_<<vars, act>>
\* what a configuration names is in force once everything it needs is registered
WorksOnceRegistered == [][act'.op = "config" =>
    \A n \in DOMAIN lg : Named(conf', n) /\ (\A i \in 1..Len(OutsFor(conf', n)) :
        LET od == The(Outs, OutsFor(conf', n)[i]) IN Works(ro[od.type]) /\ Works(rf[The(Fmts, od.fmt).type]))
      => lg'[n] = OutsFor(conf', n)]_<<vars, act>>

Shown(l) == [i \in 1..Len(lg[l]) |-> LET od == The(Outs, lg[l][i]) IN <<od.name, oi[od.name], od.fmt, fi[od.fmt]>>]
Obs == [i \in 1..Len(Loggers) |-> IF Loggers[i] \in DOMAIN lg THEN <<1, Shown(Loggers[i])>> ELSE <<0, <<>>>>]
Key(a, b, c, f, o, l) ==
    <<[i \in 1..Len(OutTypes) |-> a[OutTypes[i]]], [i \in 1..Len(FmtTypes) |-> b[FmtTypes[i]]], c,
      [i \in 1..Len(Fmts) |-> f[Fmts[i].name]], [i \in 1..Len(Outs) |-> o[Outs[i].name]],
      [i \in 1..Len(Loggers) |-> IF Loggers[i] \in DOMAIN l THEN <<l[Loggers[i]]>> ELSE <<>>]>>
PrintState == PrintT("@@S" \o ToJson([s |-> Key(ro, rf, conf, fi, oi, lg), o |-> Obs]))
PrintTransition == PrintT("@@T" \o ToJson([s |-> Key(ro, rf, conf, fi, oi, lg), a |-> act', t |-> Key(ro', rf', conf', fi', oi', lg')]))
=============================================================================
