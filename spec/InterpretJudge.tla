----------------------------- MODULE InterpretJudge -----------------------------
(* A response installed in the real agent, the events of a program, and what each tracepoint did.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
R == INSTANCE Interpret WITH MaxTps <- 0, Fault <- "none", tps <- <<>>, next <- 0, installed <- <<>>, acts <- {}
L == INSTANCE Limiter WITH Thread <- {}, Count <- 0, Period <- 0, WinStart <- 0, WinEnd <- 0, MaxTime <- 0, MaxHits <- 0, MaxInstalls <- 0, Fault <- "none",
     now <- 0, fires <- <<>>, pc <- <<>>, ts <- <<>>, cond <- <<>>, hits <- 0, inst <- 0, rec <- <<>>, of <- <<>>, last <- <<>>
Cases == ndJsonDeserialize(IOEnv.CASES)
\* tp = [args, metrics, line, target, free, known, count, period, watches, log, names] (target: the function a method location
\* means, first: the line of its def, or 0 when it was given by name; free: nothing is said about this one; known: its limits are numbers)
\* event = [k, l, n, q: line of the def, t, conds: per tracepoint; acts: per tracepoint, how often [snapshot, log, metric, span]]
\* tp.snaps = sequence of [id, watches, log, withvars: sequence of BOOLEAN], tp.logs = texts, tp.metrics seen = names
Reached(tp, e) == IF R!Place(tp.args) = "line" THEN e.k = "line" /\ e.l = tp.line ELSE e.k = "call" /\ e.n = tp.target /\ tp.first \in {0, e.q}
Permitted(tp, c) ==
    FoldLeft(LAMBDA fires, j :
                LET e == c.events[j] IN
                IF Reached(tp, e) /\ e.conds[tp.index] /\ L!May([count |-> tp.count, period |-> tp.period, ws |-> 0, we |-> 0],
                                                               [x \in DOMAIN fires |-> c.events[fires[x]].t], e.t)
                THEN Append(fires, j) ELSE fires,
             <<>>, [j \in 1..Len(c.events) |-> j])
Seen(c, tp, j, kind) == c.events[j].acts[tp.index][kind]
Total(c, tp, kind) == FoldLeft(LAMBDA n, e : n + e.acts[tp.index][kind], 0, c.events)
KindFails(c, tp, fires, kind) ==
    LET asked == kind \in R!Kinds(tp.args, tp.metrics)
        perhaps == kind \in R!Perhaps(tp.args)
        at == {fires[x] : x \in DOMAIN fires} IN
    IF kind = "snapshot" /\ R!Later(tp.args)
    THEN IF asked /\ Total(c, tp, kind) # Len(fires) THEN {"not one snapshot per permitted hit"}
         ELSE IF ~asked /\ Total(c, tp, kind) > 0 THEN {"a snapshot that was not asked for"} ELSE {}
    ELSE (IF asked /\ \E j \in at : Seen(c, tp, j, kind) = 0 THEN {"an action that was asked for is missing: " \o kind} ELSE {})
         \cup (IF ~asked /\ ~perhaps /\ Total(c, tp, kind) > 0 THEN {"an action that was not asked for: " \o kind} ELSE {})
         \cup (IF asked /\ \E j \in DOMAIN c.events : j \notin at /\ Seen(c, tp, j, kind) > 0
               THEN {"an action at another place, or not as the condition and limits of its tracepoint say: " \o kind} ELSE {})
         \cup (IF \E j \in at : Seen(c, tp, j, kind) > 1 THEN {"an action more than once: " \o kind} ELSE {})
Content(tp) ==
    (IF \E s \in DOMAIN tp.snaps : tp.snaps[s].watches # tp.watches THEN {"a snapshot does not have the watches of its tracepoint"} ELSE {})
    \cup (IF \E s \in DOMAIN tp.snaps : tp.snaps[s].log # tp.log THEN {"a snapshot does not have the log message of its tracepoint"} ELSE {})
    \cup (IF \E s \in DOMAIN tp.logs : tp.logs[s] # tp.log THEN {"the log message is not that of the tracepoint"} ELSE {})
    \cup (IF \E s \in DOMAIN tp.seen : tp.seen[s] \notin {tp.names[n] : n \in DOMAIN tp.names} THEN {"a metric that is not defined on the tracepoint"} ELSE {})
    \cup (IF \E s \in DOMAIN tp.snaps : LET v == tp.snaps[s].withvars IN
             \/ R!Frames(tp.args) = "none" /\ \E f \in DOMAIN v : v[f]
             \/ R!Frames(tp.args) = "one" /\ (~v[1] \/ \E f \in DOMAIN v : f > 1 /\ v[f])
             \/ R!Frames(tp.args) = "all" /\ \E f \in 1..2 : ~v[f]
          THEN {"the frames with variables are not those of the frame type"} ELSE {})
TpFails(c, tp) ==
    IF tp.free THEN {}
    ELSE IF ~R!Understood(tp.args)
    THEN (IF \E k \in {"snapshot", "log", "metric", "span"} : Total(c, tp, k) > 0 THEN {"a tracepoint with an unknown stage acts"} ELSE {})
    ELSE LET fires == IF tp.known THEN Permitted(tp, c) ELSE <<>> IN
         Content(tp) \cup (IF tp.known THEN UNION {KindFails(c, tp, fires, k) : k \in {"snapshot", "log", "metric", "span"}} ELSE {})
Failing(c) == UNION {TpFails(c, c.tps[t]) : t \in DOMAIN c.tps} \cup (IF c.strange > 0 THEN {"an effect of no tracepoint"} ELSE {})
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
=============================================================================
