------------------------------- MODULE Deferred -------------------------------
(* Deferred work (C15): spans that are closed, and snapshots that are completed, at the end of a line or of the       *)
(* function invocation that opened them.                                                                             *)
(* Host: threads with a stack of invocations; a generator frame can be suspended and resumed (every resumption is an *)
(* invocation of its own: it begins with a `call` event and ends with a `return` event, as Python delivers them).     *)
(* Agent: per thread sequence of pending work, looked at on every event.                                             *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- rules, also used on recorded executions -----------------------------------------------------------------------
\* an opening o = [kind, i]; the events of the invocation that opened it: sequence of [i, k, out] in order.
\* kinds: lspan/lcap (opened at a line), mspan/mcap (opened on entry)
After(inv, o) == SelectSeq(inv, LAMBDA e : e.i > o.i)
OfLine(kind) == kind \in {"lspan", "lcap"}
IsCapture(kind) == kind \in {"lcap", "mcap"}
EndIndex(seq) == IF \E j \in 1..Len(seq) : seq[j].k = "return"
                 THEN CHOOSE j \in 1..Len(seq) : seq[j].k = "return" /\ \A h \in 1..(j - 1) : seq[h].k # "return"
                 ELSE Len(seq)
\* the events at which the work may be completed
Completes(inv, o) ==
    LET seq == After(inv, o) IN
    IF seq = <<>> THEN {}
    ELSE IF OfLine(o.kind) THEN {seq[1].i}
    ELSE {seq[j].i : j \in {h \in 1..EndIndex(seq) : seq[h].k \in {"exception", "return"}}}
\* what the invocation ended with
Result(inv, o) ==
    LET seq == After(inv, o) IN IF OfLine(o.kind) THEN seq[1].out ELSE seq[EndIndex(seq)].out

\* ---- the design ----------------------------------------------------------------------------------------------------
CONSTANTS Threads,      \* threads; a thread in Late starts only when the thread it follows has ended, with its identity
          Late,
          Ident,        \* thread -> identity given by the operating system
          MaxDepth, MaxEvents, Kinds, MaxFrames, Fault
None == [k |-> "none", v |-> 0]

VARIABLES stack,        \* thread -> sequence of [fr, a, fn] : frame, invocation, function
          raising,      \* thread -> the exception being propagated (0: none), to be seen by the top invocation next
          handling,     \* thread -> the top invocation has just seen the exception and handles or propagates it
          ended, suspended, frames, n,
          pending, opened, done
vars == <<stack, raising, handling, ended, suspended, frames, n, pending, opened, done>>

Key(t) == IF "ident" \in Fault THEN Ident[t] ELSE t
Keys == IF "ident" \in Fault THEN {Ident[t] : t \in Threads} ELSE Threads
Init == /\ stack = [t \in Threads |-> <<>>] /\ raising = [t \in Threads |-> 0] /\ handling = [t \in Threads |-> FALSE]
        /\ ended = {} /\ suspended = [t \in Threads |-> <<>>] /\ frames = 0 /\ n = 0
        /\ pending = [key \in Keys |-> <<>>] /\ opened = {} /\ done = {}

Running(t) == t \notin ended /\ (t \in Late => \A u \in Threads : u # t /\ Ident[u] = Ident[t] => u \in ended)

\* does a pending work end at this event
Matches(w, e) ==
    /\ IF "name" \in Fault THEN w.fn = e.fn ELSE w.fr = e.fr
    /\ \/ OfLine(w.kind)
       \/ e.k = "return" /\ ("unwind" \in Fault => e.out.k # "raised")
       \/ "caught" \in Fault /\ e.k = "exception"
RECURSIVE Take(_, _)
\* the pending work that ends at the event: all of it, the last first ("top": only while the last one matches)
Take(seq, e) ==
    IF seq = <<>> THEN [keep |-> <<>>, end |-> <<>>]
    ELSE LET last == seq[Len(seq)]
             rest == SubSeq(seq, 1, Len(seq) - 1) IN
         IF Matches(last, e)
         THEN IF "top" \in Fault THEN [keep |-> rest, end |-> <<last>>]
              ELSE LET r == Take(rest, e) IN [keep |-> r.keep, end |-> <<last>> \o r.end]
         ELSE IF "top" \in Fault THEN [keep |-> seq, end |-> <<>>]
              ELSE LET r == Take(rest, e) IN [keep |-> Append(r.keep, last), end |-> r.end]

Opens(e) == (IF e.k = "line" /\ e.l = 1 THEN {"lspan", "lcap"} ELSE IF e.k = "call" THEN {"mspan", "mcap"} ELSE {}) \cap Kinds
SeqOf(t, e, kinds) ==
    LET Work(kind) == [o |-> <<n + 1, kind>>, kind |-> kind, i |-> n + 1, fr |-> e.fr, a |-> e.a, fn |-> e.fn, th |-> t]
        lspan == IF "lspan" \in kinds THEN <<Work("lspan")>> ELSE <<>>
        lcap == IF "lcap" \in kinds THEN <<Work("lcap")>> ELSE <<>>
        mspan == IF "mspan" \in kinds THEN <<Work("mspan")>> ELSE <<>>
        mcap == IF "mcap" \in kinds THEN <<Work("mcap")>> ELSE <<>>
    IN lspan \o lcap \o mspan \o mcap

\* one trace event delivered to the agent
Deliver(t, e) ==
    LET taken == IF e.k = "call" THEN [keep |-> pending[Key(t)], end |-> <<>>] ELSE Take(pending[Key(t)], e)
        new == SeqOf(t, e, Opens(e)) IN
    /\ n' = n + 1
    /\ pending' = [pending EXCEPT ![Key(t)] = taken.keep \o new]
    /\ opened' = opened \cup {new[j] : j \in 1..Len(new)}
    /\ done' = done \cup {[o |-> taken.end[j].o, i |-> n + 1, th |-> t, a |-> e.a, out |-> e.out] : j \in 1..Len(taken.end)}

Top(t) == stack[t][Len(stack[t])]
Pop(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)
Ev(k, f, l, out) == [k |-> k, fr |-> f.fr, a |-> f.a, fn |-> f.fn, l |-> l, out |-> out]

Call(t) == /\ raising[t] = 0 /\ Len(stack[t]) < MaxDepth /\ frames < MaxFrames
           /\ LET f == [fr |-> frames + 1, a |-> n + 1, fn |-> "f"] IN
              /\ stack' = [stack EXCEPT ![t] = Append(@, f)] /\ frames' = frames + 1
              /\ Deliver(t, Ev("call", f, 0, None))
           /\ UNCHANGED <<raising, handling, ended, suspended>>
Line(t) == /\ stack[t] # <<>> /\ raising[t] = 0
           /\ \E l \in {1, 2} : Deliver(t, Ev("line", Top(t), l, None))
           /\ UNCHANGED <<stack, raising, handling, ended, suspended, frames>>
Raise(t) == /\ stack[t] # <<>> /\ (raising[t] = 0 \/ ~handling[t])
            /\ LET x == IF raising[t] = 0 THEN n + 1 ELSE raising[t] IN
               /\ raising' = [raising EXCEPT ![t] = x]
               /\ Deliver(t, Ev("exception", Top(t), 0, [k |-> "raised", v |-> x]))
            /\ handling' = [handling EXCEPT ![t] = TRUE]
            /\ UNCHANGED <<stack, ended, suspended, frames>>
Catch(t) == /\ raising[t] # 0 /\ handling[t]
            /\ raising' = [raising EXCEPT ![t] = 0] /\ handling' = [handling EXCEPT ![t] = FALSE]
            /\ Deliver(t, Ev("line", Top(t), 2, None))
            /\ UNCHANGED <<stack, ended, suspended, frames>>
Unwind(t) == /\ raising[t] # 0 /\ handling[t]
             /\ handling' = [handling EXCEPT ![t] = FALSE]
             /\ raising' = [raising EXCEPT ![t] = IF Pop(t) = <<>> THEN 0 ELSE @]
             /\ stack' = [stack EXCEPT ![t] = Pop(t)]
             /\ Deliver(t, Ev("return", Top(t), 0, [k |-> "raised", v |-> raising[t]]))
             /\ UNCHANGED <<ended, suspended, frames>>
Return(t) == /\ stack[t] # <<>> /\ raising[t] = 0
             /\ stack' = [stack EXCEPT ![t] = Pop(t)]
             /\ Deliver(t, Ev("return", Top(t), 0, [k |-> "value", v |-> n + 1]))
             /\ UNCHANGED <<raising, handling, ended, suspended, frames>>
Yield(t) == /\ Len(stack[t]) > 1 /\ raising[t] = 0 /\ suspended[t] = <<>>
            /\ stack' = [stack EXCEPT ![t] = Pop(t)]
            /\ suspended' = [suspended EXCEPT ![t] = Append(@, Top(t))]
            /\ Deliver(t, Ev("return", Top(t), 0, [k |-> "value", v |-> n + 1]))
            /\ UNCHANGED <<raising, handling, ended, frames>>
Resume(t) == /\ suspended[t] # <<>> /\ raising[t] = 0 /\ stack[t] # <<>> /\ Len(stack[t]) < MaxDepth
             /\ LET f == [suspended[t][1] EXCEPT !.a = n + 1] IN
                /\ stack' = [stack EXCEPT ![t] = Append(@, f)]
                /\ Deliver(t, Ev("call", f, 0, None))
             /\ suspended' = [suspended EXCEPT ![t] = <<>>]
             /\ UNCHANGED <<raising, handling, ended, frames>>
End(t) == /\ stack[t] = <<>> /\ raising[t] = 0 /\ n > 0
          /\ ended' = ended \cup {t}
          /\ UNCHANGED <<stack, raising, handling, suspended, frames, n, pending, opened, done>>
Next == \E t \in Threads : Running(t) /\ (End(t) \/ (n < MaxEvents /\
            (Call(t) \/ Line(t) \/ Raise(t) \/ Catch(t) \/ Unwind(t) \/ Return(t) \/ Yield(t) \/ Resume(t))))
Spec == Init /\ [][Next]_vars

\* ---- properties ----------------------------------------------------------------------------------------------------
Work(o) == CHOOSE w \in opened : w.o = o
Once == \A d1, d2 \in done : d1.o = d2.o => d1 = d2
MovedPast == \A d \in done : d.i > Work(d.o).i
OwnThread == \A d \in done : d.th = Work(d.o).th
OwnInvocation == \A d \in done : d.a = Work(d.o).a
\* work whose invocation is over is completed
NotAfterReturn == \A w \in opened : (\A j \in 1..Len(stack[w.th]) : stack[w.th][j].a # w.a) => \E d \in done : d.o = w.o
\* a captured result is what the invocation ended with (a line: what it ended the invocation with, or nothing)
TrueResult == \A d \in done : Work(d.o).kind = "mcap" => d.out.k # "none"
                /\ (\E j \in 1..Len(stack[d.th]) : stack[d.th][j].a = d.a) = FALSE
NothingLeft == \A t \in ended : \A w \in opened : w.th = t => \E d \in done : d.o = w.o
=============================================================================
