-------------------------------- MODULE EvalGen --------------------------------
(* Expressions and histories of condition outcomes, with what Eval prescribes.                                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Counts, Hits, MaxExprs
R == INSTANCE Eval WITH Count <- 0, Hits <- 0, MaxExprs <- 0, Fault <- "none", exprs <- <<>>, spent <- 0, hit <- 0, cond <- "",
     pc <- "", results <- <<>>, out <- <<>>
VARIABLES count, exprs, hist, spent
vars == <<count, exprs, hist, spent>>
Init == /\ count \in Counts /\ hist = <<>> /\ spent = 0
        /\ exprs \in UNION {[1..k -> [name : R!Names, nested : BOOLEAN]] : k \in 1..MaxExprs}
Hit(o) == LET fire == o = "true" /\ (count = -1 \/ spent < count) IN
          /\ Len(hist) < Hits
          /\ hist' = Append(hist, [cond |-> o, fire |-> fire])
          /\ spent' = IF fire THEN spent + 1 ELSE spent
          /\ UNCHANGED <<count, exprs>>
Next == \E o \in {"true", "false", "error"} : Hit(o)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Hits => PrintT("EVAL" \o ToJson([count |-> count, exprs |-> exprs, hist |-> hist,
                                        want |-> [k \in 1..Len(exprs) |-> R!Visible(exprs[k].name)]]))
=============================================================================
