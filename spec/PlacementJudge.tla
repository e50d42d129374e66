---------------------------- MODULE PlacementJudge ----------------------------
(* Every recorded event of a real program, with the actions the real agent performed at it, against Placement.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
P == INSTANCE Placement WITH Files <- {}, Lines <- {}, Funcs <- {}, Ids <- {}, MaxStack <- 0,
     Fault <- "none", tps <- {}, triggers <- <<>>, stack <- <<>>, ev <- <<>>, acts <- {}
Cases == ndJsonDeserialize(IOEnv.CASES)

Set(s) == {s[i] : i \in 1..Len(s)}
Tps(c) == {[id |-> t.id, loc |-> t.loc, file |-> t.file, line |-> t.line, func |-> t.func, kinds |-> Set(t.kinds)] : t \in Set(c.tps)}

\* ev.acts: sequence of <<tracepoint, kind, how often>>
FailingEvent(tps, ev) ==
    LET due == P!Due(tps, ev)
        did == {<<a[1], a[2]>> : a \in Set(ev.acts)} IN
    (IF \E a \in did : a \notin due THEN {"acted at an event that is not the location of the tracepoint"} ELSE {})
    \cup (IF \E a \in due : a \notin did THEN {"did not act when its location was reached"} ELSE {})
    \cup (IF \E a \in Set(ev.acts) : a[3] # 1 THEN {"acted more than once at one event"} ELSE {})

Failing(c) == LET tps == Tps(c) IN UNION {FailingEvent(tps, c.events[i]) : i \in 1..Len(c.events)}
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
=============================================================================
