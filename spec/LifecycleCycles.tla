------------------------------ MODULE LifecycleCycles ------------------------------
(* Agents that are started and shut down several times by a host that has other hooks each time.                         *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Lives, Hooks, Enabled
VARIABLES lives, enabled
vars == <<lives, enabled>>
Life == [sys : Hooks \cup {"keep"}, thr : Hooks \cup {"keep"}, hit : {"none", "here", "new"}, how : {"here", "other"}]
Init == lives = <<>> /\ enabled \in Enabled
Next == Len(lives) < Lives /\ (\E l \in Life : lives' = Append(lives, l)) /\ UNCHANGED enabled
Spec == Init /\ [][Next]_vars
\* what the agent saved in one life matters in the next one only if the host changed it in between
Useful == \E i \in DOMAIN lives : i > 1 /\ (lives[i].sys # "keep" \/ lives[i].thr # "keep")
Emit == IF Len(lives) = Lives /\ Useful THEN PrintT("CYCLES" \o ToJson([enabled |-> enabled, lives |-> lives])) ELSE TRUE
====================================================================================
