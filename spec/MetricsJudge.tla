------------------------------ MODULE MetricsJudge ------------------------------
(* Hits of metric tracepoints in a real program: the definitions with the outcomes of their expressions as the program *)
(* computed them at that line, and what every processor was told. Totals: what a metrics library made of it.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
R == INSTANCE Metrics WITH Count <- 0, Hits <- 0, MaxMetrics <- 0, MaxProcs <- 0, Fault <- "none", defs <- <<>>, procs <- 0, spent <- 0,
     hit <- 0, pc <- "", j <- 0, p <- 0, reports <- <<>>
Cases == ndJsonDeserialize(IOEnv.CASES)
\* def = [name, type, ns, help, unit, labels: [key, any, alts], values]; report = [proc, op, name, ns, help, unit, labels: [key, value], value]
Same(d, r) == r.op = R!Op(d.type) /\ r.name = d.name /\ r.ns = R!Namespace(d.ns) /\ r.help = d.help /\ r.unit = d.unit
LabelsMatch(d, r) ==
    /\ \A k \in DOMAIN r.labels : \E l \in DOMAIN d.labels : d.labels[l].key = r.labels[k].key
    /\ \A l \in DOMAIN d.labels : d.labels[l].any
        \/ \E k \in DOMAIN r.labels : r.labels[k].key = d.labels[l].key /\ \E a \in DOMAIN d.labels[l].alts : d.labels[l].alts[a] = r.labels[k].value
ValueMatch(d, r) == \E a \in DOMAIN d.values : d.values[a] = r.value
Times(d, defs) == Cardinality({k \in DOMAIN defs : <<R!Op(defs[k].type), defs[k].name, R!Namespace(defs[k].ns), defs[k].help, defs[k].unit>>
                                                 = <<R!Op(d.type), d.name, R!Namespace(d.ns), d.help, d.unit>>})
ProcFails(h, proc) ==
    LET mine == SelectSeq(h.reports, LAMBDA r : r.proc = proc) IN
    (IF \E k \in DOMAIN h.defs : ~\E l \in DOMAIN mine : mine[l].name = h.defs[k].name THEN {"a metric is not reported to every processor"} ELSE {})
    \cup (IF \E k \in DOMAIN h.defs : LET of == {l \in DOMAIN mine : Same(h.defs[k], mine[l])} IN
             (\E l \in DOMAIN mine : mine[l].name = h.defs[k].name) /\ of = {}
          THEN {"a metric is not reported with its operation, namespace, help and unit"} ELSE {})
    \cup (IF Len(mine) > Len(h.defs) THEN {"a metric is reported more than once"} ELSE {})
    \cup (IF \E k \in DOMAIN h.defs : LET of == {l \in DOMAIN mine : Same(h.defs[k], mine[l])} IN
             of # {} /\ Cardinality(of) # Times(h.defs[k], h.defs) THEN {"a metric is not reported exactly once"} ELSE {})
    \cup (IF \E k \in DOMAIN h.defs : LET of == {l \in DOMAIN mine : Same(h.defs[k], mine[l])} IN
             of # {} /\ ~\E l \in of : LabelsMatch(h.defs[k], mine[l]) THEN {"the labels of a metric are not those of its definition"} ELSE {})
    \cup (IF \E k \in DOMAIN h.defs : LET of == {l \in DOMAIN mine : Same(h.defs[k], mine[l])} IN
             of # {} /\ ~\E l \in of : ValueMatch(h.defs[k], mine[l]) THEN {"the value of a metric is not that of its expression"} ELSE {})
    \cup (IF \E k \in DOMAIN h.defs : LET of == {l \in DOMAIN mine : Same(h.defs[k], mine[l])} IN
             (\E l \in of : LabelsMatch(h.defs[k], mine[l])) /\ (\E l \in of : ValueMatch(h.defs[k], mine[l]))
             /\ ~\E l \in of : LabelsMatch(h.defs[k], mine[l]) /\ ValueMatch(h.defs[k], mine[l])
          THEN {"the labels and value of a metric do not belong together"} ELSE {})
HitFails(h, room) ==
    LET due == room /\ Len(h.procs) > 0 IN
    (IF Len(h.procs) = 0 /\ Len(h.reports) > 0 THEN {"something is reported without a processor"} ELSE {})
    \cup (IF ~room /\ Len(h.reports) > 0 THEN {"a hit beyond the budget is reported"} ELSE {})
    \cup (IF due /\ Len(h.reports) = 0 THEN {"a permitted hit reports nothing"} ELSE {})
    \cup (IF due /\ Len(h.reports) > 0 THEN UNION {ProcFails(h, h.procs[k]) : k \in DOMAIN h.procs} ELSE {})
    \cup (IF \E k \in DOMAIN h.reports : ~\E l \in DOMAIN h.procs : h.procs[l] = h.reports[k].proc
          THEN {"a report to a processor that is not active"} ELSE {})
RECURSIVE Walk(_, _, _, _)
Walk(c, j, spent, fails) ==
    IF j > Len(c.hits) THEN fails
    ELSE LET h == c.hits[j] IN
         Walk(c, j + 1, IF Len(h.reports) > 0 THEN spent + 1 ELSE spent, fails \cup HitFails(h, c.count = -1 \/ spent < c.count))
\* totals = [lib, op, want: sequence of values, sum, n]: what a library shows after these values (n = -1: no number)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
TotalFails(t) == (IF t.sum # Sum(t.want) THEN {"a library does not have the values that were reported"} ELSE {})
                 \cup (IF t.n # -1 /\ t.n # Len(t.want) THEN {"a library does not have every report"} ELSE {})
Failing(c) == Walk(c, 1, 0, {}) \cup UNION {TotalFails(c.totals[k]) : k \in DOMAIN c.totals}
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
=============================================================================
