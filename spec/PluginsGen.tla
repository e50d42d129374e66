------------------------------ MODULE PluginsGen ------------------------------
(* Lives with plugins: an order for each, and every set of at most MaxFaults callbacks that fail.                         *)
EXTENDS Integers, FiniteSets, SequencesExt, Json, TLC
CONSTANTS N, Orders, MaxFaults
VARIABLES order, failing
Callbacks == {"resource", "decorate", "log", "open", "close", "metric", "shutdown"}
All == (1..N) \X Callbacks
Init == order \in [1..N -> Orders] /\ failing = {}
Rank(f) == CHOOSE i \in 1..Cardinality(All) : SetToSeq(All)[i] = f
Next == /\ Cardinality(failing) < MaxFaults /\ UNCHANGED order
        /\ \E f \in All \ failing : failing' = failing \cup {f}
Spec == Init /\ [][Next]_<<order, failing>>
Emit == PrintT("LIFE" \o ToJson([order |-> order, failing |-> SetToSeq(failing)]))
===============================================================================
