------------------------------ MODULE HostAgent ------------------------------
(* A host program, and the agent that runs at each of its steps.                                                          *)
(* The host: a program of operations on its data ("set" a variable, "next" of an iterator, "raise" an exception that it     *)
(* catches, "call": one more event).  The agent: at each step the stages of its handler, each of which can fail; a failure  *)
(* ends what it belongs to (an action, a result, the whole handler) and nothing else.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Length, MaxFaults, Fault
Ops == {"set", "next", "raise", "call"}
Programs == [1..Length -> Ops]
\* stages of the handler, and whether they run once per action
Stages == <<"context", "callbacks", "match", "enter", "decide", "evaluate", "process", "plugin", "exit", "register">>
PerAction == {"decide", "evaluate", "process", "plugin"}
VARIABLES program, pc, data, iter, caught, error,      \* the host
          stage, action, pending, tracing, faults, done \* the agent: 0: not in the handler
host == <<program, pc, data, iter, caught, error>>
agent == <<stage, action, pending, tracing, faults, done>>
vars == <<program, pc, data, iter, caught, error, stage, action, pending, tracing, faults, done>>
Actions == 2
Init == /\ program \in Programs /\ pc = 1 /\ data = 0 /\ iter = 0 /\ caught = <<>> /\ error = ""
        /\ stage = 0 /\ action = 1 /\ pending = 0 /\ tracing = TRUE /\ faults = 0 /\ done = FALSE
Running == error = "" /\ pc <= Length
\* ---- the handler ----------------------------------------------------------------------------------------------------
Enter == /\ Running /\ tracing /\ ~done /\ stage = 0 /\ stage' = 1 /\ action' = 1
         /\ UNCHANGED host /\ UNCHANGED <<pending, tracing, faults, done>>
Leave == stage' = 0 /\ action' = 1 /\ done' = TRUE
AfterStage == IF Stages[stage] = "plugin" /\ action < Actions THEN action' = action + 1 /\ stage' = 5 /\ UNCHANGED done
              ELSE IF stage = Len(Stages) THEN Leave
              ELSE stage' = stage + 1 /\ UNCHANGED <<action, done>>
Good == /\ stage # 0 /\ AfterStage
        /\ pending' = CASE Stages[stage] = "callbacks" -> 0 [] Stages[stage] = "register" -> 1 [] OTHER -> pending
        /\ iter' = IF Fault = "consumes" /\ Stages[stage] = "process" THEN iter + 1 ELSE iter
        /\ data' = IF Fault = "writes" /\ Stages[stage] = "evaluate" THEN data + 1 ELSE data
        /\ UNCHANGED <<program, pc, caught, error, tracing, faults>>
\* where a failure is stopped: at the end of the action, or at the end of the handler
Caught == IF Stages[stage] \in PerAction
          THEN IF action < Actions THEN action' = action + 1 /\ stage' = 5 /\ UNCHANGED done ELSE stage' = 9 /\ UNCHANGED <<action, done>>
          ELSE Leave
Bad == /\ stage # 0 /\ faults < MaxFaults /\ faults' = faults + 1
       /\ IF Fault = "escape " \o Stages[stage]
          THEN \* the interpreter raises it in the host and takes the trace function away
               error' = "agent" /\ tracing' = FALSE /\ Leave /\ UNCHANGED <<program, pc, data, iter, caught, pending>>
          ELSE /\ Caught /\ tracing' = (Fault # "switches off") /\ UNCHANGED <<program, pc, data, iter, caught, error, pending>>
\* ---- the host -------------------------------------------------------------------------------------------------------
Do == /\ Running /\ stage = 0 /\ (done \/ ~tracing)
      /\ LET op == program[pc] IN
         /\ data' = IF op = "set" THEN data + 1 ELSE data
         /\ iter' = IF op = "next" THEN iter + 1 ELSE iter
         /\ caught' = IF op = "raise" /\ Fault # "swallows" THEN Append(caught, pc) ELSE caught
      /\ pc' = pc + 1 /\ done' = FALSE /\ UNCHANGED <<program, error, stage, action, pending, tracing, faults>>
Next == Enter \/ Good \/ Bad \/ Do
Spec == Init /\ [][Next]_vars /\ WF_vars(Enter \/ Good \/ Do)
\* ---- the property: what the host is without the agent ----------------------------------------------------------------
Before(op) == {i \in 1..pc - 1 : program[i] = op}
SameData == data = Cardinality(Before("set"))
SameIterators == iter = Cardinality(Before("next"))
SameExceptions == /\ Len(caught) = Cardinality(Before("raise")) /\ \A i \in DOMAIN caught : caught[i] \in Before("raise")
NothingEscapes == error = ""
StillTracing == tracing
Ends == <>(pc > Length)
==============================================================================
