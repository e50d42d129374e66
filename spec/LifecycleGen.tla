------------------------------ MODULE LifecycleGen ------------------------------
(* Lives of an agent: what the host and the caller do, in every order.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Steps, Hooks, Enabled
VARIABLES ops, up, enabled
vars == <<ops, up, enabled>>
Init == ops = <<>> /\ up = FALSE /\ enabled \in Enabled
Op(op, arg) == ops' = Append(ops, [op |-> op, arg |-> arg])
Last == IF ops = <<>> THEN "none" ELSE ops[Len(ops)].op
Host == (~up \/ ~enabled) /\ (\E h \in Hooks : (Last # "sys" /\ Op("sys", h)) \/ (Last \notin {"thr", "sys"} /\ Op("thr", h))) /\ UNCHANGED up
Start == Op("start", "") /\ up' = TRUE
Stop == Len(ops) > 0 /\ (\E how \in {"here", "other"} : Op("stop", how)) /\ up' = FALSE
Hit == Last # "hit" /\ (\E where \in {"here", "new"} : Op("hit", where)) /\ UNCHANGED up
Next == Len(ops) < Steps /\ UNCHANGED enabled /\ (Host \/ Start \/ Stop \/ Hit)
Spec == Init /\ [][Next]_vars
Useful == \E i, j \in DOMAIN ops : i < j /\ ops[i].op = "start" /\ ops[j].op = "stop"
Emit == IF Len(ops) = Steps /\ Useful THEN PrintT("LIFE" \o ToJson([enabled |-> enabled, ops |-> ops])) ELSE TRUE
===================================================================================
