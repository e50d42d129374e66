---------------------------- MODULE LogTemplateGen ----------------------------
(* Templates: every sequence of parts up to a length.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxParts
R == INSTANCE LogTemplate WITH MaxParts <- 0, Hits <- 0, Fault <- "none", parts <- <<>>, template <- <<>>, pos <- 0, text <- <<>>,
     watches <- <<>>, hit <- 0, logs <- <<>>, snaps <- <<>>
VARIABLES parts
vars == <<parts>>
Init == parts = <<>>
Next == \E k \in R!Kinds : Len(parts) < MaxParts /\ parts' = Append(parts, k)
Spec == Init /\ [][Next]_vars
Emit == PrintT("TPL" \o ToJson([parts |-> parts]))
=============================================================================
