-------------------------------- MODULE TaskPool --------------------------------
(* Work handed over by the threads of the application, run by background workers, and drained by a flush (C09, C14).   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Apps,        \* threads of the application that hand over work
          PerApp,      \* how many tasks each hands over
          Workers,     \* background threads
          Flushers,    \* threads that flush
          Fault
Tasks == Apps \X (1..PerApp)
VARIABLES open,        \* is work accepted
          queue,       \* accepted, not started
          pc,          \* state of each thread of the application: "ready", "checked" (faulty variant only)
          sent,        \* per application thread: number of tasks handed over
          status,      \* task -> new | accepted | refused | running | ok | failed
          runs,        \* task -> set of <<thread, nth run>>
          busy,        \* worker -> task, or <<>>; "dead" in a faulty variant
          flush,       \* flusher -> [s: idle | waiting | returned | raised, for: set of tasks it waits for]
          before       \* flusher -> tasks that had been accepted when it was called
vars == <<open, queue, pc, sent, status, runs, busy, flush, before>>

Finished(s) == s \in {"ok", "failed"}
Init == /\ open = TRUE /\ queue = <<>> /\ pc = [a \in Apps |-> "ready"] /\ sent = [a \in Apps |-> 0]
        /\ status = [t \in Tasks |-> "new"] /\ runs = [t \in Tasks |-> {}]
        /\ busy = [w \in Workers |-> <<>>]
        /\ flush = [f \in Flushers |-> [s |-> "idle", for |-> {}]] /\ before = [f \in Flushers |-> {}]

Current(a) == <<a, sent[a] + 1>>
Accept(a, t) == /\ queue' = Append(queue, t) /\ status' = [status EXCEPT ![t] = "accepted"]
                /\ sent' = [sent EXCEPT ![a] = @ + 1]
Refuse(a, t) == /\ status' = [status EXCEPT ![t] = IF Fault = "dropped" THEN "ok" ELSE "refused"]
                /\ sent' = [sent EXCEPT ![a] = @ + 1] /\ UNCHANGED queue
\* checking that work is accepted and accepting it is one step
Submit(a) == /\ Fault # "race" /\ sent[a] < PerApp
             /\ IF Fault = "inline" /\ open
                THEN /\ status' = [status EXCEPT ![Current(a)] = "ok"] /\ sent' = [sent EXCEPT ![a] = @ + 1]
                     /\ runs' = [runs EXCEPT ![Current(a)] = {<<a, 1>>}] /\ UNCHANGED queue
                ELSE (IF open THEN Accept(a, Current(a)) ELSE Refuse(a, Current(a))) /\ UNCHANGED runs
             /\ UNCHANGED <<open, pc, busy, flush, before>>
\* faulty: two steps
Look(a) == /\ Fault = "race" /\ sent[a] < PerApp /\ pc[a] = "ready"
           /\ IF open THEN pc' = [pc EXCEPT ![a] = "checked"] /\ UNCHANGED <<queue, status, sent>>
              ELSE Refuse(a, Current(a)) /\ UNCHANGED pc
           /\ UNCHANGED <<open, runs, busy, flush, before>>
Put(a) == /\ pc[a] = "checked" /\ Accept(a, Current(a)) /\ pc' = [pc EXCEPT ![a] = "ready"]
          /\ UNCHANGED <<open, runs, busy, flush, before>>

Take(w) == /\ busy[w] = <<>> /\ queue # <<>>
           /\ busy' = [busy EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
           /\ status' = [status EXCEPT ![Head(queue)] = "running"]
           /\ runs' = [runs EXCEPT ![Head(queue)] = @ \cup {<<w, Cardinality(@) + 1>>}]
           /\ UNCHANGED <<open, pc, sent, flush, before>>
Finish(w, how) == /\ busy[w] # <<>> /\ busy[w] # <<"dead", 0>>
                  /\ busy' = [busy EXCEPT ![w] = IF Fault = "workerdies" /\ how = "failed" THEN <<"dead", 0>> ELSE <<>>]
                  /\ IF Fault = "retry" /\ how = "failed" /\ Cardinality(runs[busy[w]]) < 2
                     THEN status' = [status EXCEPT ![busy[w]] = "accepted"] /\ queue' = Append(queue, busy[w])
                     ELSE status' = [status EXCEPT ![busy[w]] = how] /\ UNCHANGED queue
                  /\ UNCHANGED <<open, pc, sent, runs, flush, before>>

Unfinished == {t \in Tasks : status[t] \in {"accepted", "running"}}
Flush(f) == /\ flush[f].s = "idle"
            /\ open' = FALSE
            /\ flush' = [flush EXCEPT ![f] = [s |-> "waiting", for |-> IF Fault = "queuedonly" THEN {queue[i] : i \in DOMAIN queue} ELSE Unfinished]]
            /\ before' = [before EXCEPT ![f] = {t \in Tasks : status[t] \in {"accepted", "running", "ok", "failed"}}]
            /\ UNCHANGED <<queue, pc, sent, status, runs, busy>>
FlushEnd(f) == /\ flush[f].s = "waiting"
               /\ \/ \A t \in flush[f].for : Finished(status[t])
                  \/ Fault = "failstops" /\ \E t \in flush[f].for : status[t] = "failed"
               /\ flush' = [flush EXCEPT ![f].s = IF Fault = "failstops" /\ \E t \in flush[f].for : status[t] = "failed" THEN "raised" ELSE "returned"]
               /\ UNCHANGED <<open, queue, pc, sent, status, runs, busy, before>>

Next == (\E a \in Apps : Submit(a) \/ Look(a) \/ Put(a)) \/ (\E w \in Workers : Take(w) \/ \E how \in {"ok", "failed"} : Finish(w, how))
        \/ (\E f \in Flushers : Flush(f) \/ FlushEnd(f))
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A w \in Workers : WF_vars(Take(w)) /\ WF_vars(\E how \in {"ok", "failed"} : Finish(w, how))
             /\ \A f \in Flushers : WF_vars(FlushEnd(f))

AtMostOnce == \A t \in Tasks : Cardinality(runs[t]) <= 1
RunMeansRun == \A t \in Tasks : Finished(status[t]) => Cardinality(runs[t]) = 1
OnlyWorkers == \A t \in Tasks : \A r \in runs[t] : r[1] \in Workers
\* a flush that returned found everything finished that was accepted, and it always returns normally
Drained == \A f \in Flushers : flush[f].s = "returned" => \A t \in Tasks : status[t] \notin {"accepted", "running"}
NeverRaises == \A f \in Flushers : flush[f].s # "raised"
RefusedOnlyWhenClosed == \A t \in Tasks : status[t] = "refused" => ~open /\ runs[t] = {}
AllRun == \A t \in Tasks : status[t] = "accepted" ~> Finished(status[t])
FlushReturns == \A f \in Flushers : flush[f].s = "waiting" ~> flush[f].s = "returned"
=================================================================================
