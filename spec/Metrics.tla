-------------------------------- MODULE Metrics --------------------------------
(* Metric tracepoints (C17): on every permitted hit each defined metric is reported once to each active processor.     *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- rules -----------------------------------------------------------------------------------------------------------
Types == {"COUNTER", "GAUGE", "HISTOGRAM", "SUMMARY"}
Op(type) == CASE type = "COUNTER" -> "counter" [] type = "GAUGE" -> "gauge" [] type = "HISTOGRAM" -> "histogram"
            [] type = "SUMMARY" -> "summary"
Namespace(ns) == IF ns = "" THEN "deep" ELSE ns
\* what an expression evaluates to: a number, something else, or it fails; "none": there is no expression
Value(expr) == IF expr = "number" THEN 7 ELSE 1

\* ---- the design ------------------------------------------------------------------------------------------------------
CONSTANTS Count, Hits, MaxMetrics, MaxProcs, Fault
VARIABLES defs,     \* metrics of the tracepoint: sequence of [type, expr, ns]
          procs,    \* active processors (they can come and go)
          spent, hit, pc, j, p,
          reports   \* reports of the processors: sequence of [hit, proc, def, op, ns, value]
vars == <<defs, procs, spent, hit, pc, j, p, reports>>
Def == [type : {"COUNTER", "GAUGE", "SUMMARY"}, expr : {"none", "number", "text", "fails"}, ns : {"", "own"}]
Init == /\ defs \in UNION {[1..k -> Def] : k \in 1..MaxMetrics}
        /\ procs \in 0..MaxProcs /\ spent = 0 /\ hit = 0 /\ pc = "idle" /\ j = 1 /\ p = 1 /\ reports = <<>>
Plug == /\ pc = "idle" /\ hit < Hits
        /\ procs' \in (0..MaxProcs) \ {procs}
        /\ UNCHANGED <<defs, spent, hit, pc, j, p, reports>>
Reach == /\ pc = "idle" /\ hit < Hits /\ hit' = hit + 1
         /\ LET room == Count = -1 \/ spent < Count
                go == room /\ procs > 0 IN
            /\ spent' = IF go \/ (room /\ Fault = "idlespends") THEN spent + 1 ELSE spent
            /\ pc' = IF go THEN "report" ELSE "idle"
         /\ j' = 1 /\ p' = 1
         /\ UNCHANGED <<defs, procs, reports>>
Report == /\ pc = "report" /\ j <= Len(defs)
          /\ LET d == defs[j]
                 r == [hit |-> hit, proc |-> p, def |-> j, op |-> IF Fault = "allcounters" THEN "counter" ELSE Op(d.type),
                       ns |-> IF Fault = "nodefault" THEN d.ns ELSE Namespace(d.ns),
                       value |-> IF Fault = "always1" THEN 1 ELSE Value(d.expr)] IN
             IF d.expr = "fails" /\ Fault = "stops" THEN pc' = "idle" /\ UNCHANGED <<j, p, reports>>
             ELSE /\ reports' = Append(reports, r)
                  /\ IF p < procs /\ Fault # "firstonly" THEN p' = p + 1 /\ UNCHANGED j ELSE p' = 1 /\ j' = j + 1
                  /\ UNCHANGED pc
          /\ UNCHANGED <<defs, procs, spent, hit>>
Done == /\ pc = "report" /\ j > Len(defs) /\ pc' = "idle"
        /\ UNCHANGED <<defs, procs, spent, hit, j, p, reports>>
Next == Plug \/ Reach \/ Report \/ Done
Spec == Init /\ [][Next]_vars

OfHit(h) == SelectSeq(reports, LAMBDA r : r.hit = h)
Matching == \A k \in DOMAIN reports : LET r == reports[k] IN
    r.op = Op(defs[r.def].type) /\ r.ns = Namespace(defs[r.def].ns) /\ r.value = Value(defs[r.def].expr)
OnceEach == \A k, l \in DOMAIN reports : k # l => <<reports[k].hit, reports[k].proc, reports[k].def>>
                                                # <<reports[l].hit, reports[l].proc, reports[l].def>>
\* a hit that was permitted is reported completely
Complete == [][pc = "report" /\ pc' = "idle" => Len(OfHit(hit)) = procs * Len(defs)]_vars
\* budget is used up by reports only
BudgetIsReports == pc = "idle" => spent = Cardinality({reports[k].hit : k \in DOMAIN reports})
DueIsReported == [][hit' # hit /\ procs > 0 /\ (Count = -1 \/ Cardinality({reports[k].hit : k \in DOMAIN reports}) < Count)
                    => pc' = "report"]_vars
=============================================================================
