------------------------------ MODULE Placement ------------------------------
(* Where tracepoints act (C03).                                                                                    *)
(* A host program delivers trace events (call, line, return, exception) of frames on a call stack; the agent has a  *)
(* set of tracepoints installed and performs actions at events.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- rules (also used on recorded event streams): a tracepoint tp = [id, loc, file, line, func, kinds]; an event
\* ---- ev = [k, f, l, n] (kind, base name of the file, line, function)
Reaches(tp, ev) ==
    \/ tp.loc = "line" /\ ev.k = "line" /\ ev.f = tp.file /\ ev.l = tp.line
    \/ tp.loc = "method" /\ ev.k = "call" /\ ev.f = tp.file /\ ev.n = tp.func

\* the actions due at an event: every action of every tracepoint for which the event reaches its location
Due(tps, ev) == {<<tp.id, kind>> : <<tp, kind>> \in {pair \in tps \X {"snapshot", "log", "metric", "span"} :
                                                        pair[2] \in pair[1].kinds /\ Reaches(pair[1], ev)}}

\* ---- the design -------------------------------------------------------------------------------------------------
CONSTANTS Files, Lines, Funcs, Ids, MaxStack, Fault

VARIABLES tps,        \* the tracepoints the service sent
          triggers,   \* what the agent installed: locations with merged actions
          stack,      \* call stack of the host: <<file, func, line>>
          ev, acts    \* the last event and the actions performed at it
vars == <<tps, triggers, stack, ev, acts>>

Tp == [id : Ids, loc : {"line"}, file : Files, line : Lines, func : {""}, kinds : {{"snapshot"}, {"log", "metric"}}]
      \cup [id : Ids, loc : {"method"}, file : Files, line : {0}, func : Funcs, kinds : {{"snapshot"}, {"log", "metric"}}]
LocationOf(tp) == IF tp.loc = "line" THEN <<"line", tp.file, tp.line>> ELSE <<"method", tp.file, tp.func>>
ActionsOf(tp) == {<<tp.id, k>> : k \in tp.kinds}

\* several tracepoints on a location are merged into one trigger
Install(set) ==
    [loc \in {LocationOf(tp) : tp \in set} |->
        IF Fault = "replace"
        THEN ActionsOf(CHOOSE tp \in set : LocationOf(tp) = loc)
        ELSE UNION {ActionsOf(tp) : tp \in {x \in set : LocationOf(x) = loc}}]

NoEvent == [k |-> "none", f |-> "", l |-> 0, n |-> ""]
Init == /\ tps \in {{}} \cup {s \in {{x, y} : <<x, y>> \in Tp \X Tp} : Cardinality({x.id : x \in s}) = Cardinality(s)}
        /\ triggers = Install(tps)
        /\ stack = <<>> /\ ev = NoEvent /\ acts = {}

Matches(loc, e) ==
    \/ loc[1] = "line" /\ (e.k = "line" \/ (Fault = "anyevent" /\ e.k = "return")) /\ e.f = loc[2] /\ e.l = loc[3]
    \/ loc[1] = "method" /\ (e.k = "call" \/ (Fault = "funcline" /\ e.k = "line")) /\ e.f = loc[2] /\ e.n = loc[3]
Perform(e) == UNION {triggers[loc] : loc \in {x \in DOMAIN triggers : Matches(x, e)}}

Deliver(e) == ev' = e /\ acts' = Perform(e) /\ UNCHANGED <<tps, triggers>>
Top == stack[Len(stack)]
Event(k, top) == [k |-> k, f |-> top[1], n |-> top[2], l |-> top[3]]

Call == /\ Len(stack) < MaxStack
        /\ \E f \in Files, fn \in Funcs, l \in Lines : stack' = Append(stack, <<f, fn, l>>) /\ Deliver(Event("call", <<f, fn, l>>))
Line == /\ stack # <<>>
        /\ \E l \in Lines : LET top == <<Top[1], Top[2], l>> IN
                stack' = [stack EXCEPT ![Len(stack)] = top] /\ Deliver(Event("line", top))
Raise == stack # <<>> /\ UNCHANGED stack /\ Deliver(Event("exception", Top))
Return == stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Deliver(Event("return", Top))
Next == Call \/ Line \/ Raise \/ Return
Spec == Init /\ [][Next]_vars

\* ---- properties -------------------------------------------------------------------------------------------------
ActsExactlyWhenReached == ev.k # "none" => acts = Due(tps, ev)
OnlyLineAndCall == acts # {} => ev.k \in {"line", "call"}
\* a tracepoint acts as it would alone
Independent == ev.k # "none" => \A tp \in tps : {a \in acts : a[1] = tp.id} = Due({tp}, ev)
NothingWithoutTracepoints == tps = {} => acts = {}
=============================================================================
