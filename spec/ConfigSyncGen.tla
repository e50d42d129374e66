------------------------------ MODULE ConfigSyncGen ------------------------------
(* Histories for the real agent, with what it has to act on and to report after each step.                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Steps, Versions, Handles, Answers, OutOfOrder
VARIABLES hist, latest, custom, used, pending
vars == <<hist, latest, custom, used, pending>>
Init == hist = <<>> /\ latest = 0 /\ custom = {} /\ used = {} /\ pending = 0
Add(what, arg, v, c, p) ==
    hist' = Append(hist, [what |-> what, arg |-> arg, latest |-> v, custom |-> c, pending |-> p])
More == Len(hist) < Steps
Update(v) == /\ More /\ latest' = v /\ pending' = pending + 1 /\ Add("update", v, v, custom, pending + 1) /\ UNCHANGED <<custom, used>>
Answer(a) == /\ More /\ Add(a, 0, latest, custom, pending) /\ UNCHANGED <<latest, custom, used, pending>>
Reg(h) == /\ More /\ h \notin used /\ (h > 1 => (h - 1) \in used)
          /\ custom' = custom \cup {h} /\ used' = used \cup {h} /\ pending' = pending + 1
          /\ Add("register", h, latest, custom \cup {h}, pending + 1) /\ UNCHANGED latest
Unreg(h) == /\ More /\ h \in used
            /\ custom' = custom \ {h} /\ Add("unregister", h, latest, custom \ {h}, pending + 1)
            /\ pending' = pending + 1 /\ UNCHANGED <<latest, used>>
\* one of the pending updates runs: the oldest, or the newest
Run(k) == /\ More /\ pending > 0 /\ pending' = pending - 1 /\ Add("run", k, latest, custom, pending - 1) /\ UNCHANGED <<latest, custom, used>>
Next ==    \/ \E v \in Versions : Update(v)
           \/ \E a \in Answers : Answer(a)
           \/ \E h \in Handles : Reg(h) \/ Unreg(h)
           \/ \E k \in (IF OutOfOrder THEN {0, 1} ELSE {}) : Run(k)
Spec == Init /\ [][Next]_vars
Emit == IF Len(hist) = Steps THEN PrintT("HIST" \o ToJson(hist)) ELSE TRUE
===================================================================================
