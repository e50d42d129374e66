----------------------------- MODULE PlacementGen -----------------------------
(* All sets of at most MaxTps tracepoint locations (with repetition) over a grid of locations.                      *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Grid, MaxTps     \* Grid: number of locations
VARIABLE pick
Init == pick = <<>>
Next == \E g \in 1..Grid : Len(pick) < MaxTps /\ (IF pick = <<>> THEN TRUE ELSE pick[Len(pick)] <= g) /\ pick' = Append(pick, g)
Spec == Init /\ [][Next]_pick
Emit == PrintT("PICK" \o ToJson(pick))
=============================================================================
