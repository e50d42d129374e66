-------------------------------- MODULE Lifecycle --------------------------------
(* Start and shutdown of the agent: trace hooks, polling, delivery, plugins (C14).                                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Hooks,       \* hooks that the host may install, with "none"
          Plugins, Enabled, MaxStarts, MaxPending, MaxHost, Fault
VARIABLES sys, thr,    \* the hooks of the process: of the thread that starts, and for new threads
          was,         \* what the host had when the agent was started
          saved,       \* what the agent saved
          phase,       \* "down" | "up" | the next step of a shutdown: "hooks", "poll", "flush", "plugins"
          polling, pending, failing, up, downs, starts, acted, host
vars == <<sys, thr, was, saved, phase, polling, pending, failing, up, downs, starts, acted, host>>
None == [s |-> "none", t |-> "none"]
Init == /\ sys \in Hooks /\ thr \in Hooks /\ was = None /\ saved = None /\ phase = "down" /\ polling = FALSE /\ pending = 0
        /\ failing \in SUBSET ({"poll", "flush"} \cup Plugins) /\ up = {} /\ downs = [p \in Plugins |-> 0] /\ starts = 0 /\ acted = "nothing" /\ host = 0
Traced == Enabled
\* the host changes its hooks while the agent does not have them
HostSets == /\ host < MaxHost /\ host' = host + 1 /\ (phase = "down" \/ (phase = "up" /\ ~Traced))
            /\ \E h \in Hooks : (sys' = h /\ UNCHANGED thr) \/ (thr' = h /\ UNCHANGED sys)
            /\ UNCHANGED <<was, saved, phase, polling, pending, failing, up, downs, starts, acted>>
Save == saved' = [s |-> sys, t |-> thr]
Start == /\ phase = "down" /\ starts < MaxStarts /\ starts' = starts + 1
         /\ phase' = "up" /\ polling' = TRUE /\ up' = Plugins /\ pending' = 0
         /\ was' = [s |-> sys, t |-> thr]
         /\ IF Traced \/ Fault = "always" THEN Save /\ sys' = "agent" /\ thr' = "agent" ELSE UNCHANGED <<saved, sys, thr>>
         /\ downs' = [p \in Plugins |-> 0] /\ acted' = "nothing" /\ UNCHANGED <<failing, host>>
StartAgain == /\ phase = "up" /\ IF Fault = "resave" /\ Traced THEN Save ELSE UNCHANGED saved
              /\ UNCHANGED <<sys, thr, was, phase, polling, pending, failing, up, downs, starts, acted, host>>
Hit == /\ sys = "agent" \/ (phase = "down" /\ Fault = "late" /\ starts > 0)
       /\ phase \in {"up", "down"} /\ pending < MaxPending /\ pending' = pending + 1
       /\ acted' = phase /\ UNCHANGED <<sys, thr, was, saved, phase, polling, failing, up, downs, starts, host>>
Deliver == pending > 0 /\ phase # "down" /\ pending' = pending - 1 /\ UNCHANGED <<sys, thr, was, saved, phase, polling, failing, up, downs, starts, acted, host>>
\* a step that fails does not prevent the ones that follow
After(step, next) == IF Fault = "aborts" /\ step \in failing THEN "down" ELSE next
Shutdown == phase = "up" /\ phase' = "hooks" /\ UNCHANGED <<sys, thr, was, saved, polling, pending, failing, up, downs, starts, acted, host>>
StopHooks == /\ phase = "hooks" /\ phase' = "poll"
             /\ IF Traced \/ Fault \in {"always", "disabledrestore"}
                THEN /\ sys' = (IF Fault = "clear" THEN "none" ELSE saved.s)
                     /\ thr' = (IF Fault = "sysonly" THEN thr ELSE IF Fault = "clear" THEN "none" ELSE saved.t)
                ELSE UNCHANGED <<sys, thr>>
             /\ UNCHANGED <<was, saved, polling, pending, failing, up, downs, starts, acted, host>>
StopPoll == phase = "poll" /\ phase' = After("poll", "flush") /\ polling' = FALSE /\ UNCHANGED <<sys, thr, was, saved, pending, failing, up, downs, starts, acted, host>>
Flush == /\ phase = "flush" /\ (pending = 0 \/ Fault = "noflush")
         /\ phase' = After("flush", "plugins") /\ UNCHANGED <<sys, thr, was, saved, polling, pending, failing, up, downs, starts, acted, host>>
StopPlugin == /\ phase = "plugins"
              /\ IF up = {} THEN phase' = "down" /\ UNCHANGED <<up, downs>>
                 ELSE \E p \in up : /\ up' = up \ {p} /\ downs' = [downs EXCEPT ![p] = @ + 1] /\ phase' = After(p, "plugins")
              /\ UNCHANGED <<sys, thr, was, saved, polling, pending, failing, starts, acted, host>>
Next == HostSets \/ Start \/ StartAgain \/ Hit \/ Deliver \/ Shutdown \/ StopHooks \/ StopPoll \/ Flush \/ StopPlugin
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Deliver) /\ WF_vars(StopHooks) /\ WF_vars(StopPoll) /\ WF_vars(Flush) /\ WF_vars(StopPlugin)

ShutDown == phase = "down" /\ starts > 0
Complete == ShutDown => ~polling /\ pending = 0 /\ \A p \in Plugins : downs[p] = 1
Running == phase = "up" => (Traced => sys = "agent" /\ thr = "agent")
\* the hooks are those from before the start, as soon as the shutdown is done
Restored == [][phase # "down" /\ phase' = "down" /\ Traced => sys' = was.s /\ thr' = was.t]_vars
Untouched == [][~Traced /\ host' = host => UNCHANGED <<sys, thr>>]_vars
NoLateActs == acted # "down"
Completes == phase = "hooks" ~> phase = "down"
===================================================================================
