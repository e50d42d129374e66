------------------------------- MODULE ConfigSync -------------------------------
(* The agent follows the configuration of the service and of the code (C12, C13).                                      *)
(* A version v of the service stands for its set of tracepoints and for its hash; 0: nothing received yet.             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxVersion,    \* versions of the service's configuration
          Handles,       \* registrations in code
          Places,        \* handle -> place (file and line)
          MaxTasks,      \* pending updates
          MaxFails,
          MaxStops,      \* how often the agent is shut down and started again
          Fault

VARIABLES service,       \* version that the service has now
          latest,        \* version received last
          hash,          \* hash that the next poll reports
          custom,        \* handles registered now
          used,          \* handles that were registered at some time
          tasks,         \* pending updates: set of [v, c, n]  (what they were given)
          reading,       \* faulty variants: updates that have read what to install and not installed it yet
          installed,     \* [v, c]: what the agent acts on
          polling, fails, serial,
          up, stops      \* is the agent started
life == <<up, stops>>
vars == <<service, latest, hash, custom, used, tasks, reading, installed, polling, fails, serial, up, stops>>

Init == /\ service = 1 /\ latest = 0 /\ hash = 0 /\ custom = {} /\ used = {} /\ tasks = {} /\ reading = {}
        /\ installed = [v |-> 0, c |-> {}] /\ polling = TRUE /\ fails = 0 /\ serial = 0
        /\ up = TRUE /\ stops = 0

Room == Cardinality(tasks) < MaxTasks
\* an update is submitted: it is told to install something; it runs later, in any order
Submit(v, c) == tasks' = tasks \cup {[v |-> v, c |-> c, n |-> serial]} /\ serial' = serial + 1

Change == service < MaxVersion /\ service' = service + 1 /\ UNCHANGED life /\ UNCHANGED <<latest, hash, custom, used, tasks, reading, installed, polling, fails, serial>>
\* the service answers UPDATE when the hash is not its own
PollUpdate == /\ up /\ UNCHANGED life /\ polling /\ hash # service /\ Room
              /\ latest' = service
              /\ hash' = IF Fault = "oldhash" THEN latest ELSE service
              /\ custom' = IF Fault = "replace" THEN {} ELSE custom
              /\ Submit(service, custom')
              /\ UNCHANGED <<service, used, reading, installed, polling, fails>>
PollNoChange == /\ up /\ UNCHANGED life /\ polling /\ hash = service
                /\ IF Fault = "clears" THEN Room /\ latest' = 0 /\ Submit(0, custom) ELSE UNCHANGED <<latest, tasks, serial>>
                /\ UNCHANGED <<service, hash, custom, used, reading, installed, polling, fails>>
\* no answer, or one that cannot be understood
PollFails == /\ up /\ UNCHANGED life /\ polling /\ fails < MaxFails /\ fails' = fails + 1
             /\ polling' = (Fault # "stops")
             /\ hash' = IF Fault = "hashfirst" THEN service ELSE hash
             /\ UNCHANGED <<service, latest, custom, used, tasks, reading, installed, serial>>

Register(h) == /\ up /\ UNCHANGED life /\ h \notin used /\ Room /\ used' = used \cup {h}
               /\ custom' = custom \cup {h}
               /\ Submit(latest, custom') /\ UNCHANGED <<service, latest, hash, reading, installed, polling, fails>>
Unregister(h) == /\ UNCHANGED life /\ h \in used /\ Room
                 /\ custom' = IF Fault = "byplace" THEN {g \in custom : Places[g] # Places[h]} ELSE custom \ {h}
                 /\ custom' # custom
                 /\ IF Fault = "silent" \/ ~up THEN UNCHANGED <<tasks, serial>> ELSE Submit(latest, custom')
                 /\ UNCHANGED <<service, latest, hash, used, reading, installed, polling, fails>>

\* an update runs: whatever it was told, it installs what is the latest now, in one step
Run(t) == /\ UNCHANGED life /\ t \in tasks /\ tasks' = tasks \ {t}
          /\ IF Fault = "twosteps" THEN reading' = reading \cup {[v |-> latest, c |-> custom, n |-> t.n]} /\ UNCHANGED installed
             ELSE /\ installed' = IF Fault = "captured" THEN [v |-> t.v, c |-> t.c] ELSE [v |-> latest, c |-> custom]
                  /\ UNCHANGED reading
          /\ UNCHANGED <<service, latest, hash, custom, used, polling, fails, serial>>
Write(r) == /\ UNCHANGED life /\ r \in reading /\ reading' = reading \ {r} /\ installed' = [v |-> r.v, c |-> r.c]
            /\ UNCHANGED <<service, latest, hash, custom, used, tasks, polling, fails, serial>>

\* the agent is shut down: what is pending is finished first; a poll that is under way can still be answered, it is refused
Stop == /\ up /\ stops < MaxStops /\ tasks = {} /\ reading = {} /\ up' = FALSE /\ stops' = stops + 1
        /\ UNCHANGED <<service, latest, hash, custom, used, tasks, reading, installed, polling, fails, serial>>
LateAnswer == /\ ~up /\ hash # service
              /\ hash' = IF Fault = "latehash" THEN service ELSE hash
              /\ UNCHANGED life /\ UNCHANGED <<service, latest, custom, used, tasks, reading, installed, polling, fails, serial>>
\* and started again: the registrations can be others than when it was shut down
StartAgain == /\ ~up /\ up' = TRUE /\ UNCHANGED stops
              /\ custom' = IF Fault = "forgets" THEN {} ELSE custom
              /\ IF Fault = "norefresh" THEN UNCHANGED <<tasks, serial>> ELSE Submit(latest, custom')
              /\ UNCHANGED <<service, latest, hash, used, reading, installed, polling, fails>>

Next == Stop \/ LateAnswer \/ StartAgain \/ Change \/ PollUpdate \/ PollNoChange \/ PollFails \/ (\E h \in Handles : Register(h) \/ Unregister(h))
        \/ (\E t \in tasks : Run(t)) \/ (\E r \in reading : Write(r))
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(StartAgain) /\ WF_vars(PollUpdate) /\ WF_vars(\E t \in tasks : Run(t))

\* what the agent acts on, once activity settles
Settled == tasks = {} /\ reading = {}
Expected == [v |-> latest, c |-> custom]
Converged == up /\ Settled /\ serial > 0 => installed = Expected
ReportedIsHeld == hash \in {latest}
NeverStops == polling
\* a handle changes itself only, and nothing but its registration and unregistration changes it
OnlyItself == [][/\ \A h \in Handles : (h \in custom' /\ h \notin custom => h \notin used)
                 /\ Cardinality((custom \ custom') \cup (custom' \ custom)) <= 1
                 /\ (custom' # custom => UNCHANGED <<latest, hash>>)]_vars
FailAltersNothing == [][fails' # fails => UNCHANGED <<latest, hash, custom, installed, tasks>>]_vars
NoChangeAltersNothing == [][hash = service /\ UNCHANGED <<service, custom>> => UNCHANGED latest]_vars
\* when the service changes no more, its last version gets installed and stays
Eventually == <>[](installed.v = service /\ hash = service)
=================================================================================
