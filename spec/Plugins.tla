------------------------------ MODULE Plugins ------------------------------
(* The plugins of an agent: loading, and the callbacks of a life (start, hits of tracepoints, shutdown) with any subset of  *)
(* the callbacks failing.                                                                                                 *)
(* Plugins are 1..N; each has a condition, an order and the callbacks that fail.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS N, Orders, Conditions, Hits, MaxFaults, Fault
Callbacks == {"resource", "decorate", "log", "open", "close", "metric", "shutdown"}
VARIABLES cond, order, failing,        \* what the plugins are like
          phase, todo,                 \* "load", "resource", hit callbacks ..., "shutdown", "end"; the plugins still to call
          loaded, started, gave, called, hit, delivered, crashed
vars == <<cond, order, failing, phase, todo, loaded, started, gave, called, hit, delivered, crashed>>
Ids == 1..N
Insert(s, p) == LET before == {i \in DOMAIN s : order[s[i]] <= order[p]} IN
                LET k == Cardinality(before) IN SubSeq(s, 1, k) \o <<p>> \o SubSeq(s, k + 1, Len(s))
Good == {p \in Ids : cond[p] = "ok"}
Init == /\ cond \in [Ids -> Conditions] /\ order \in [Ids -> Orders]
        /\ failing \in {f \in SUBSET (Ids \X Callbacks) : Cardinality(f) <= MaxFaults}
        /\ phase = "load" /\ todo = [i \in Ids |-> i]
        /\ loaded = <<>> /\ started = FALSE /\ gave = [c \in Callbacks |-> {}] /\ called = [c \in Callbacks |-> {}]
        /\ hit = 0 /\ delivered = 0 /\ crashed = ""
Kept == <<cond, order, failing>>
\* ---- loading --------------------------------------------------------------------------------------------------------
Takes(p) == \/ cond[p] = "ok"
            \/ cond[p] = "off" /\ Fault = "keepsinactive"
Aborts(p) == \/ cond[p] = "missing" /\ Fault = "missingstops"
             \/ cond[p] = "broken" /\ Fault = "brokenescapes"
Load == /\ phase = "load" /\ todo # <<>>
        /\ LET p == Head(todo) IN
           IF Aborts(p) /\ cond[p] = "broken" THEN /\ crashed' = "start" /\ UNCHANGED <<phase, todo, loaded>>
           ELSE /\ todo' = IF Aborts(p) THEN <<>> ELSE Tail(todo)
                /\ loaded' = IF Takes(p) THEN (IF Fault = "unsorted" THEN Append(loaded, p) ELSE Insert(loaded, p)) ELSE loaded
                /\ UNCHANGED <<phase, crashed>>
        /\ UNCHANGED <<started, gave, called, hit, delivered>> /\ UNCHANGED Kept
Loaded == /\ phase = "load" /\ todo = <<>> /\ phase' = "resource" /\ todo' = loaded
          /\ UNCHANGED <<loaded, started, gave, called, hit, delivered, crashed>> /\ UNCHANGED Kept
\* ---- callbacks ------------------------------------------------------------------------------------------------------
\* what comes after all plugins were called for this phase
After == [resource |-> "open", open |-> "metric", metric |-> "decorate", decorate |-> "log", log |-> "close", close |-> "hit", shutdown |-> "end"]
Phases == DOMAIN After
Who(c) == IF c = "close" THEN [i \in 1..Cardinality(gave["open"]) |-> SelectSeq(loaded, LAMBDA p : p \in gave["open"])[i]]
          ELSE IF c = "log" /\ loaded # <<>> THEN <<loaded[1]>> ELSE loaded        \* one logger is used
Escapes(c) == Fault = "escape " \o c
Breaks(c) == Fault = "break " \o c
Call == /\ phase \in Phases /\ todo # <<>>
        /\ LET p == Head(todo)  bad == <<p, phase>> \in failing IN
           /\ called' = [called EXCEPT ![phase] = @ \cup {p}]
           /\ gave' = IF bad THEN (IF Fault = "clears" THEN [gave EXCEPT ![phase] = {}] ELSE gave) ELSE [gave EXCEPT ![phase] = @ \cup {p}]
           /\ IF bad /\ Escapes(phase)
              THEN IF phase \in {"resource", "shutdown"} THEN crashed' = phase /\ UNCHANGED <<todo>>
                   ELSE todo' = <<>> /\ crashed' = "hit"
              ELSE /\ todo' = IF bad /\ Breaks(phase) THEN <<>> ELSE Tail(todo)
                   /\ UNCHANGED crashed
        /\ UNCHANGED <<phase, loaded, started, hit, delivered>> /\ UNCHANGED Kept
Fresh == [gave EXCEPT !["open"] = {}, !["metric"] = {}, !["decorate"] = {}, !["log"] = {}, !["close"] = {}]
FreshCalled == [called EXCEPT !["open"] = {}, !["metric"] = {}, !["decorate"] = {}, !["log"] = {}, !["close"] = {}]
Done == /\ phase \in Phases /\ todo = <<>>
        /\ IF phase = "shutdown" THEN phase' = "end" /\ todo' = <<>> /\ UNCHANGED <<started, gave, called, hit, delivered, crashed>>
           ELSE LET next == IF crashed = "hit" THEN "hit" ELSE After[phase] IN
                /\ phase' = next
                /\ todo' = IF next = "hit" THEN <<>> ELSE Who(next)
                /\ started' = (started \/ phase = "resource")
                /\ hit' = IF phase = "resource" THEN 1 ELSE hit
                \* the snapshot goes after its decorators and its log
                /\ delivered' = IF phase = "log" /\ crashed # "hit" THEN delivered + 1 ELSE delivered
                /\ crashed' = IF crashed = "hit" THEN "" ELSE crashed
                /\ UNCHANGED <<gave, called>>
        /\ UNCHANGED loaded /\ UNCHANGED Kept
Again == /\ phase = "hit"
         /\ IF hit < Hits THEN phase' = "open" /\ hit' = hit + 1 /\ todo' = loaded /\ gave' = Fresh /\ called' = FreshCalled
            ELSE phase' = "shutdown" /\ todo' = loaded /\ UNCHANGED <<hit, gave, called>>
         /\ UNCHANGED <<loaded, started, delivered, crashed>> /\ UNCHANGED Kept
Next == (crashed \in {"", "hit"}) /\ (Load \/ Loaded \/ Call \/ Done \/ Again)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- the property ---------------------------------------------------------------------------------------------------
AfterLoad == phase # "load"
LoadsTheGood == AfterLoad => Range(loaded) = Good
Ordered == \A i, j \in DOMAIN loaded : i < j => order[loaded[i]] <= order[loaded[j]]
Contributors(c) == {p \in Good : <<p, c>> \notin failing}
\* phases of which the calls are over
Over(c) == \/ phase = "end" /\ c \in {"resource", "shutdown"}
           \/ started /\ c = "resource"
           \/ phase = "hit" /\ c \in {"open", "metric", "decorate"}
OnlyItsOwn == \A c \in Callbacks : Over(c) => gave[c] = Contributors(c) /\ called[c] = Good
\* every span that was opened is closed
SpansClosed == phase = "hit" => called["close"] = gave["open"]
Delivered == phase = "hit" => delivered = hit
Lives == <>(phase = "end")
============================================================================
