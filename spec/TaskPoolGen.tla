------------------------------- MODULE TaskPoolGen -------------------------------
(* Schedules for the real task handler: what is handed over, what may finish, when it is flushed; with the state of     *)
(* each flush and task that the design prescribes after every step.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxTasks, MaxFlush, Kinds
VARIABLES steps, kinds, released, closed, refused, flushes
vars == <<steps, kinds, released, closed, refused, flushes>>
Init == steps = <<>> /\ kinds = <<>> /\ released = {} /\ closed = FALSE /\ refused = {} /\ flushes = 0
Accepted == (DOMAIN kinds) \ refused
\* a flush has to return exactly when everything that was accepted can finish
Returns(rel) == Accepted \subseteq rel
Step(what, n, kind, rel, fl) == steps' = Append(steps, [what |-> what, n |-> n, kind |-> kind,
                                    flushes |-> fl, returned |-> fl > 0 /\ Returns(rel)])
Submit(kind) == /\ Len(kinds) < MaxTasks
                /\ kinds' = Append(kinds, kind)
                /\ IF closed THEN refused' = refused \cup {Len(kinds) + 1} ELSE UNCHANGED refused
                /\ UNCHANGED <<released, closed, flushes>>
                /\ steps' = Append(steps, [what |-> IF closed THEN "refused" ELSE "submit", n |-> Len(kinds) + 1, kind |-> kind, flushes |-> flushes,
                                           returned |-> flushes > 0 /\ (IF closed THEN Accepted \subseteq released ELSE FALSE)])
Release(n) == /\ n \in Accepted \ released
              /\ released' = released \cup {n}
              /\ Step("release", n, kinds[n], released \cup {n}, flushes)
              /\ UNCHANGED <<kinds, closed, refused, flushes>>
Flush == /\ flushes < MaxFlush
         /\ closed' = TRUE /\ flushes' = flushes + 1
         /\ Step("flush", flushes + 1, "none", released, flushes + 1)
         /\ UNCHANGED <<kinds, released, refused>>
Next == (\E k \in Kinds : Submit(k)) \/ (\E n \in 1..MaxTasks : Release(n)) \/ Flush
Spec == Init /\ [][Next]_vars
Emit == IF flushes = MaxFlush /\ Accepted \subseteq released /\ (Len(kinds) = MaxTasks) THEN PrintT("SCHED" \o ToJson(steps)) ELSE TRUE
===================================================================================
