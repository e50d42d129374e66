------------------------------ MODULE InterpretGen ------------------------------
(* The table of arguments, with what each row asks for.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS FrameTypes, Metrics
R == INSTANCE Interpret WITH MaxTps <- 0, Fault <- "none", tps <- <<>>, next <- 0, installed <- <<>>, acts <- {}
VARIABLES row
vars == <<row>>
Init == row \in [stage : {"absent", "odd", ""} \cup R!LineStages \cup R!MethodStages, method_name : {"absent", "named"},
                 span : {"absent", "line", "method", "odd"}, snapshot : {"absent", "collect", "no_collect", "odd"},
                 log_msg : {"absent", "text"}, frame_type : FrameTypes, metrics : Metrics]
Next == FALSE /\ UNCHANGED row
Spec == Init /\ [][Next]_vars
Emit == PrintT("ROW" \o ToJson([args |-> row, understood |-> R!Understood(row), place |-> R!Place(row), kinds |-> R!Kinds(row, row.metrics),
                                perhaps |-> R!Perhaps(row), frames |-> R!Frames(row), later |-> R!Later(row)]))
=============================================================================
