----------------------------- MODULE LimiterTrace -----------------------------
(* Is a history of hits recorded from the real code a behaviour of Limiter?  Each hit is logged by its start (thread, *)
(* time of the event, truth of the condition) and its end (how often it collected); the decision in between is       *)
(* inferred.                                                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

L == INSTANCE Limiter WITH Thread <- {}, Count <- 0, Period <- 0, WinStart <- 0, WinEnd <- 0, MaxTime <- 0,
     MaxHits <- 0, MaxInstalls <- 0, Fault <- "none", now <- 0, fires <- <<>>, pc <- <<>>, ts <- <<>>, cond <- <<>>, hits <- 0, inst <- 0, rec <- <<>>, of <- <<>>, last <- <<>>

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, fires, open, done

Trace == Cases[c].trace
Cf == Cases[c].cf

\* open: hits that have not decided yet; done: hits that have decided, with the outcome
TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ fires = <<>> /\ open = {} /\ done = {}

Start == /\ l <= Len(Trace) /\ Trace[l].e = "start"
         /\ open' = open \cup {[t |-> Trace[l].t, ts |-> Trace[l].ts, cond |-> Trace[l].cond]}
         /\ l' = l + 1 /\ UNCHANGED <<c, fires, done>>

Decide(h, fire) ==
    /\ h \in open
    /\ fire => h.cond /\ L!May(Cf, fires, h.ts)
    /\ ~fire => ~(h.cond /\ L!Must(Cf, fires, h.ts))
    /\ fires' = IF fire THEN Append(fires, h.ts) ELSE fires
    /\ open' = open \ {h}
    /\ done' = done \cup {[t |-> h.t, fired |-> IF fire THEN 1 ELSE 0]}
    /\ UNCHANGED <<c, l>>

End == /\ l <= Len(Trace) /\ Trace[l].e = "end"
       /\ [t |-> Trace[l].t, fired |-> Trace[l].fired] \in done
       /\ done' = {d \in done : d.t # Trace[l].t}
       /\ l' = l + 1 /\ UNCHANGED <<c, fires, open>>

TraceNext == Start \/ End \/ \E h \in open, fire \in BOOLEAN : Decide(h, fire)
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, fires, open, done>>

ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Progress == IF l > TLCGet(c) THEN TLCSet(c, l) ELSE TRUE
Report == ndJsonSerialize(IOEnv.RESULTS, [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, reached |-> TLCGet(i)]])
=============================================================================
