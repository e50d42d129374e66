----------------------------- MODULE LifecycleJudge -----------------------------
(* The life of a real agent.  Events: [op, arg, sys, thr: the hooks afterwards ("none", "A", "B", "agent", "other"),     *)
(* effects: what the agent did during the step, polls: polls after the step, downs: shutdowns of each plugin so far,    *)
(* ups: how often the plugins were loaded, unsent: snapshots taken and not delivered, raised, returned]                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
Begin(c) == [sys |-> c.sys, thr |-> c.thr, was |-> [s |-> "none", t |-> "none"], up |-> FALSE, starts |-> 0, fails |-> {}]
Apply(c, st, e) ==
    LET next == CASE e.op = "sys" -> [st EXCEPT !.sys = e.arg]
                  [] e.op = "thr" -> [st EXCEPT !.thr = e.arg]
                  [] e.op = "start" /\ ~st.up -> [st EXCEPT !.up = TRUE, !.starts = @ + 1, !.was = [s |-> st.sys, t |-> st.thr],
                                                         !.sys = IF c.enabled THEN "agent" ELSE @, !.thr = IF c.enabled THEN "agent" ELSE @]
                  [] e.op = "stop" /\ st.up -> [st EXCEPT !.up = FALSE, !.sys = IF c.enabled THEN st.was.s ELSE @, !.thr = IF c.enabled THEN st.was.t ELSE @]
                  [] OTHER -> st
        when == IF e.op \in {"start", "stop"} THEN e.op \o " (" \o (IF (e.op = "start") = st.up THEN "repeated" ELSE "first") \o ")" ELSE e.op IN
    [next EXCEPT !.fails = @
        \cup (IF e.returned THEN {} ELSE {"does not complete: " \o when})
        \cup (IF e.raised = "" THEN {} ELSE {"raises: " \o when})
        \cup (IF e.sys = next.sys THEN {} ELSE {IF c.enabled THEN "the trace hook of the thread is not what it has to be after " \o when ELSE "tracing is disabled but the hook of the thread is touched by " \o when})
        \cup (IF e.thr = next.thr THEN {} ELSE {IF c.enabled THEN "the trace hook of new threads is not what it has to be after " \o when ELSE "tracing is disabled but the hook of new threads is touched by " \o when})
        \cup (IF e.alien = "same" THEN {} ELSE {"the hook of another thread is touched by " \o when})
        \cup (IF next.up /\ c.enabled /\ e.op = "hit" /\ e.effects = 0 THEN {"the agent does not act although it is started"} ELSE {})
        \cup (IF ~next.up /\ e.effects > 0 THEN {"the agent acts while it is not running"} ELSE {})
        \cup (IF ~next.up /\ e.polls > 0 THEN {"the agent polls while it is not running"} ELSE {})
        \cup (IF next.up /\ e.op = "start" /\ e.polls = 0 THEN {"the agent does not poll although it is started"} ELSE {})
        \cup (IF e.op = "stop" /\ e.unsent > 0 THEN {"a snapshot is not delivered by the shutdown"} ELSE {})
        \cup (IF \E p \in DOMAIN e.downs : e.downs[p] # (IF next.up THEN next.starts - 1 ELSE next.starts) THEN {"a plugin is not shut down exactly once by each shutdown"} ELSE {})]
Failing(c) == FoldLeft(LAMBDA st, e : Apply(c, st, e), Begin(c), c.events).fails
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
===================================================================================
