------------------------------ MODULE TaskPoolTrace ------------------------------
(* Is what was recorded of the real task handler a behaviour of TaskPool?  Events: a task is handed over ("sub", app    *)
(* thread, task), the call returns ("acc") or raises ("ref"), a task starts ("run", task, thread) and ends ("end"), a    *)
(* flush is called ("fl") and returns ("flr") or raises.  The moments at which a task is accepted and at which a flush   *)
(* closes are inferred.                                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, closed, calling, accepted, refused, running, finished, flushing
vars == <<c, l, closed, calling, accepted, refused, running, finished, flushing>>
Trace == Cases[c].trace
Event == Trace[l]
Is(kind) == l <= Len(Trace) /\ Event.e = kind /\ l' = l + 1 /\ UNCHANGED c
TraceInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ closed = FALSE /\ calling = {} /\ accepted = {} /\ refused = {}
             /\ running = {} /\ finished = {} /\ flushing = {}
Sub == Is("sub") /\ calling' = calling \cup {Event.n} /\ UNCHANGED <<closed, accepted, refused, running, finished, flushing>>
\* inferred
Accept(n) == /\ n \in calling /\ ~closed /\ n \notin accepted \cup refused
             /\ accepted' = accepted \cup {n} /\ UNCHANGED <<c, l, closed, calling, refused, running, finished, flushing>>
Refuse(n) == /\ n \in calling /\ closed /\ n \notin accepted \cup refused
             /\ refused' = refused \cup {n} /\ UNCHANGED <<c, l, closed, calling, accepted, running, finished, flushing>>
Close(f) == /\ f \in flushing /\ closed' = TRUE /\ UNCHANGED <<c, l, calling, accepted, refused, running, finished, flushing>>
Acc == Is("acc") /\ Event.n \in accepted /\ calling' = calling \ {Event.n} /\ UNCHANGED <<closed, accepted, refused, running, finished, flushing>>
Ref == Is("ref") /\ Event.n \in refused /\ calling' = calling \ {Event.n} /\ UNCHANGED <<closed, accepted, refused, running, finished, flushing>>
\* never a second time, never on a thread of the application
Run == /\ Is("run") /\ Event.n \in accepted \ (running \cup finished) /\ Event.worker
       /\ running' = running \cup {Event.n} /\ UNCHANGED <<closed, calling, accepted, refused, finished, flushing>>
End == /\ Is("end") /\ Event.n \in running
       /\ running' = running \ {Event.n} /\ finished' = finished \cup {Event.n}
       /\ UNCHANGED <<closed, calling, accepted, refused, flushing>>
Fl == Is("fl") /\ flushing' = flushing \cup {Event.n} /\ UNCHANGED <<closed, calling, accepted, refused, running, finished>>
Flr == /\ Is("flr") /\ Event.n \in flushing /\ closed /\ accepted \subseteq finished
       /\ flushing' = flushing \ {Event.n} /\ UNCHANGED <<closed, calling, accepted, refused, running, finished>>
\* everything has settled: nothing that was accepted is left over
Settled == Is("settled") /\ accepted = finished /\ flushing = {} /\ UNCHANGED <<closed, calling, accepted, refused, running, finished, flushing>>
\* the handler is opened again
Open == Is("open") /\ flushing = {} /\ calling = {} /\ closed' = FALSE /\ UNCHANGED <<calling, accepted, refused, running, finished, flushing>>
Step == Sub \/ Acc \/ Ref \/ Run \/ End \/ Fl \/ Flr \/ Settled \/ Open
\* inferred steps are only taken when a recorded one needs them
TraceNext == Step \/ (\E n \in calling : Accept(n) \/ Refuse(n)) \/ (\E f \in flushing : ~closed /\ Close(f))
TraceSpec == TraceInit /\ [][TraceNext]_vars
ASSUME \A i \in 1..Len(Cases) : TLCSet(i, 1)
Progress == IF l > TLCGet(c) THEN TLCSet(c, l) ELSE TRUE
Report == ndJsonSerialize(IOEnv.RESULTS, [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, reached |-> TLCGet(i)]])
===================================================================================
