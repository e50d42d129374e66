---------------------------------- MODULE WireGen --------------------------------
(* Lives of the connection: requests of both kinds, alone and at the same time, restarts with other providers.          *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Steps, Providers
VARIABLES ops, up
Op(op, arg) == ops' = Append(ops, [op |-> op, arg |-> arg])
Last == IF ops = <<>> THEN "none" ELSE ops[Len(ops)].op
Init == ops = <<>> /\ up = FALSE
Start == ~up /\ up' = TRUE /\ \E p \in Providers : Op("start", p)
Stop == up /\ Last # "start" /\ up' = FALSE /\ Op("stop", "")
Work == up /\ UNCHANGED up /\ \E op \in {"poll", "snap", "both", "breaks", "works"} :
        /\ op = "breaks" => Last # "works"
        /\ op = "works" => \E i \in DOMAIN ops : ops[i].op = "breaks"
        /\ Op(op, "")
Next == Len(ops) < Steps /\ (Start \/ Stop \/ Work)
Spec == Init /\ [][Next]_<<ops, up>>
Emit == IF Len(ops) = Steps THEN PrintT("LINE" \o ToJson(ops)) ELSE TRUE
==================================================================================
