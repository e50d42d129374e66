------------------------------ MODULE HostJudge ------------------------------
(* A program of the host without and with the agent.                                                                      *)
(* Case: plain, agent: [result, error, logs (thread -> entries, as a sequence of [thread, items]), final];                  *)
(*       traced: is the trace function still there at the end; raised: what the handler raised when it was called directly;  *)
(*       later: "yes", "no" or "" (does the agent still collect in the thread afterwards, when that was looked at);           *)
(*       hung                                                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
Entry(logs, t) == IF \E i \in DOMAIN logs : logs[i].thread = t THEN (logs[CHOOSE i \in DOMAIN logs : logs[i].thread = t]).items ELSE <<>>
Threads(logs) == {logs[i].thread : i \in DOMAIN logs}
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Failing(c) ==
    (IF c.hung THEN {"the program does not end"} ELSE {})
    \cup (IF c.hung \/ c.plain.result = c.agent.result THEN {} ELSE {"the program returns something else"})
    \cup (IF c.hung \/ c.plain.error = c.agent.error THEN {} ELSE {"the program raises something else"})
    \cup (IF c.hung \/ \A t \in Threads(c.plain.logs) \cup Threads(c.agent.logs) : Entry(c.plain.logs, t) = Entry(c.agent.logs, t) THEN {}
          ELSE {"the program writes something else"})
    \cup (IF c.hung \/ c.plain.final = c.agent.final THEN {} ELSE {"the final data of the program are different"})
    \cup (IF c.hung \/ c.traced THEN {} ELSE {"tracing is switched off"})
    \cup (IF c.raised = "" THEN {} ELSE {"the handler raises"})
    \cup (IF c.hung \/ c.later # "no" THEN {} ELSE {"nothing is collected after a failure"})
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
==============================================================================
