------------------------------ MODULE HostGen ------------------------------
(* Host programs as sequences of operations, a tracepoint of some kind on one of them, and what is wrong with it.           *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Length, Ops, Kinds, Troubles
VARIABLES ops, at, kind, trouble
Init == ops \in [1..Length -> Ops] /\ at \in 1..Length /\ kind \in Kinds /\ trouble \in Troubles
Next == FALSE /\ UNCHANGED <<ops, at, kind, trouble>>
Spec == Init /\ [][Next]_<<ops, at, kind, trouble>>
Emit == PrintT("HOST" \o ToJson([ops |-> ops, at |-> at, kind |-> kind, trouble |-> trouble]))
============================================================================
