------------------------------ MODULE LimiterGen ------------------------------
(* Single-threaded behaviours of Limiter: every history of at most MaxHits hits, over every gap between hits and every *)
(* truth of the condition, for every configuration of a small grid. Printed with the outcome the model gives.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
L == INSTANCE Limiter WITH Thread <- {}, Count <- 0, Period <- 0, WinStart <- 0, WinEnd <- 0, MaxTime <- 0,
     MaxHits <- 0, MaxInstalls <- 0, Fault <- "none", now <- 0, fires <- <<>>, pc <- <<>>, ts <- <<>>, cond <- <<>>, hits <- 0, inst <- 0, rec <- <<>>, of <- <<>>, last <- <<>>
CONSTANTS Hits, Gaps, Counts, Periods, Windows, Conds
VARIABLES cf, hist, fires, now
vars == <<cf, hist, fires, now>>
Init == /\ \E n \in Counts, p \in Periods, w \in Windows : cf = [count |-> n, period |-> p, ws |-> w[1], we |-> w[2]]
        /\ hist = <<>> /\ fires = <<>> /\ now = 1
Hit(g, cnd) ==
    LET t == now + g
        must == L!Must(cf, fires, t) /\ cnd
        may == L!May(cf, fires, t) /\ cnd IN
    /\ Len(hist) < Hits
    /\ must = may                      \* only histories with a determined outcome
    /\ now' = t
    /\ hist' = Append(hist, [gap |-> g, cond |-> cnd, fire |-> must])
    /\ fires' = IF must THEN Append(fires, t) ELSE fires
    /\ UNCHANGED cf
Next == \E g \in Gaps, cnd \in Conds : Hit(g, cnd)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Hits => PrintT("HIST" \o ToJson([cf |-> cf, hist |-> hist]))
=============================================================================
