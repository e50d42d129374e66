------------------------------ MODULE AttributesGen ------------------------------
(* Sequences of operations on a store, every one of a length, for each capacity.                                        *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Keys, Vals, Caps, Steps, Kinds
VARIABLES cap, ops
Init == cap \in Caps /\ ops = <<>>
Last == IF ops = <<>> THEN [op |-> "none", k |-> "", v |-> 0] ELSE ops[Len(ops)]
Fresh == {k \in Keys : \A i \in DOMAIN ops : ops[i].k # k}
\* keys are interchangeable: a new one is the least that was not used
Usable == (Keys \ Fresh) \cup (IF Fresh = {} THEN {} ELSE {CHOOSE k \in Fresh : \A o \in Fresh : k <= o})
Next == /\ Len(ops) < Steps /\ UNCHANGED cap
        /\ \E op \in Kinds :
           IF op = "set" THEN \E k \in Usable, v \in Vals : ops' = Append(ops, [op |-> op, k |-> k, v |-> v])
           ELSE IF op \in {"del", "pop", "default"} THEN \E k \in Usable : ops' = Append(ops, [op |-> op, k |-> k, v |-> 0])
           ELSE ops' = Append(ops, [op |-> op, k |-> 0, v |-> 0])
Spec == Init /\ [][Next]_<<cap, ops>>
Emit == IF Len(ops) = Steps THEN PrintT("OPS" \o ToJson([cap |-> cap, ops |-> ops])) ELSE TRUE
==================================================================================
