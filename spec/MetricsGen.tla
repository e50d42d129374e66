------------------------------- MODULE MetricsGen -------------------------------
(* Histories of hits with processors that come and go, and metric lists, with the permitted hits.                     *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Counts, Hits, MaxMetrics, MaxProcs
R == INSTANCE Metrics WITH Count <- 0, Hits <- 0, MaxMetrics <- 0, MaxProcs <- 0, Fault <- "none", defs <- <<>>, procs <- 0, spent <- 0,
     hit <- 0, pc <- "", j <- 0, p <- 0, reports <- <<>>
VARIABLES count, defs, hist, spent
vars == <<count, defs, hist, spent>>
Def == [type : R!Types, expr : {"none", "number", "text", "fails"}, ns : {"", "own"}]
Init == /\ count \in Counts /\ hist = <<>> /\ spent = 0
        /\ defs \in UNION {[1..k -> Def] : k \in 1..MaxMetrics}
Hit(n) == LET fire == n > 0 /\ (count = -1 \/ spent < count) IN
          /\ Len(hist) < Hits
          /\ hist' = Append(hist, [procs |-> n, fire |-> fire])
          /\ spent' = IF fire THEN spent + 1 ELSE spent
          /\ UNCHANGED <<count, defs>>
Next == \E n \in 0..MaxProcs : Hit(n)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Hits => PrintT("MET" \o ToJson([count |-> count, defs |-> defs, hist |-> hist]))
=============================================================================
