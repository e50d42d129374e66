--------------------------- MODULE LogTemplateJudge ---------------------------
(* Hits of log tracepoints: what each part of the template stands for (computed by the program itself at that line),   *)
(* the messages that the tracepoint logger received, and the snapshot.                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
R == INSTANCE LogTemplate WITH MaxParts <- 0, Hits <- 0, Fault <- "none", parts <- <<>>, template <- <<>>, pos <- 0, text <- <<>>,
     watches <- <<>>, hit <- 0, logs <- <<>>, snaps <- <<>>
Cases == ndJsonDeserialize(IOEnv.CASES)
\* case = [hits, count, tp]; hit = [parts, logs: [text, tp, ctx], ctx, snaps: [log, haslog, watches: [expr, err]], collects]
SnapFails(h, s) ==
    LET want == R!Fields(h.parts) IN
    (IF s.haslog /\ Len(h.logs) = 1 /\ s.log # h.logs[1].text THEN {"the message of the snapshot is not the one that was logged"} ELSE {})
    \cup (IF ~s.haslog THEN {"the message is not recorded on the snapshot"} ELSE {})
    \cup (IF Len(s.watches) # Len(want) THEN {"the snapshot does not have one log watch per field"}
          ELSE (IF \E j \in 1..Len(want) : s.watches[j].expr # want[j].expr THEN {"a log watch is not that of the field"} ELSE {})
               \cup (IF \E j \in 1..Len(want) : want[j].err # "any" /\ s.watches[j].err # want[j].err
                     THEN {"a log watch does not have the outcome of the field"} ELSE {})
               \cup (IF \E j \in 1..Len(want) : s.watches[j].err = "no" /\ want[j].err = "no" /\ s.watches[j].text # want[j].shown
                     THEN {"a log watch does not have the value of the field"} ELSE {}))
HitFails(h, due, tp) ==
    (IF Len(h.logs) > 1 \/ (Len(h.logs) = 1 /\ ~due) THEN {"more than one message per permitted hit"} ELSE {})
    \cup (IF Len(h.logs) = 0 /\ due THEN {"no message for a permitted hit"} ELSE {})
    \cup (IF \E j \in DOMAIN h.logs : h.logs[j].text \notin R!Messages(h.parts) THEN {"the message is not the rendered template"} ELSE {})
    \cup (IF \E j \in DOMAIN h.logs : h.logs[j].tp # tp THEN {"the message is not labelled with the id of the tracepoint"} ELSE {})
    \cup (IF \E j \in DOMAIN h.logs : h.ctx # "" /\ h.logs[j].ctx # h.ctx THEN {"the message is not labelled with the id of the context"} ELSE {})
    \cup UNION {SnapFails(h, h.snaps[j]) : j \in DOMAIN h.snaps}
    \cup (IF h.collects /\ due /\ Len(h.snaps) = 0 THEN {"no snapshot to record the message on"} ELSE {})
Failing(c) == UNION {HitFails(c.hits[j], c.count = -1 \/ j <= c.count, c.tp) : j \in DOMAIN c.hits}
              \cup (IF Cardinality({c.hits[j].logs[k].ctx : <<j, k>> \in {p \in (DOMAIN c.hits) \X {1} : Len(c.hits[p[1]].logs) >= 1}})
                       < Cardinality({j \in DOMAIN c.hits : Len(c.hits[j].logs) >= 1})
                    THEN {"different hits have the same context id"} ELSE {})
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
=============================================================================
