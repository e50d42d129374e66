------------------------------ MODULE ConfigGen ------------------------------
(* Every way to give the settings: for each, in code (absent, as a value, as text, as a function) and in the environment,   *)
(* with values by number (0: a falsy one).                                                                                  *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Keys, Values
VARIABLES way
Forms == [code : {"typed", "text", "function"}, c : Values, env : {-1} \cup Values] \cup [code : {"absent"}, c : {-1}, env : {-1} \cup Values]
Init == way \in [key : Keys, form : Forms]
Next == FALSE /\ UNCHANGED way
Spec == Init /\ [][Next]_way
Emit == PrintT("WAY" \o ToJson(way))
==============================================================================
