------------------------------ MODULE ConfigResolve ------------------------------
(* How a setting resolves and what it then means.                                                                        *)
(* The process has an environment (texts), imports the agent (which reads the environment for the keys that it knows),      *)
(* and makes configurations in code; each key of a configuration is absent, a value, or a function that gives a value.       *)
(* A value is [t: "typed" | "text", m: what it means]; what a setting does depends on the meaning alone.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Known, Unknown, Meanings, MaxSteps, Fault
Keys == Known \cup Unknown
Absent == [t |-> "absent", m |-> "absent"]
\* meanings: "zero" is a falsy one
Typed(m) == [t |-> "typed", m |-> m]
Text(m) == [t |-> "text", m |-> m]
Function(m) == [t |-> "function", m |-> m]
CodeValues == {Absent} \cup {Typed(m) : m \in Meanings} \cup {Text(m) : m \in Meanings} \cup {Function(m) : m \in Meanings}
EnvValues == {Absent} \cup {Text(m) : m \in Meanings}
Default == Typed("default")
VARIABLES env, atimport, code, answers, steps
vars == <<env, atimport, code, answers, steps>>
Init == /\ env \in [Keys -> EnvValues] /\ atimport = <<>> /\ code = [k \in Keys |-> Absent] /\ answers = {} /\ steps = 0
Step == steps < MaxSteps /\ steps' = steps + 1
Import == /\ atimport = <<>> /\ atimport' = env /\ UNCHANGED <<env, code, answers, steps>>
Configure(k, v) == /\ Step /\ atimport # <<>> /\ code' = [code EXCEPT ![k] = v] /\ answers' = {} /\ UNCHANGED <<env, atimport>>
\* ---- the agent ------------------------------------------------------------------------------------------------------
Called(v) == IF v.t = "function" /\ Fault # "nocall" THEN Typed(v.m) ELSE v
Backed(k) == IF Fault = "noenv" THEN Default ELSE IF atimport[k] # Absent THEN atimport[k] ELSE Default
FromEnv(k) == IF Fault = "nounknown" THEN Absent ELSE env[k]
HasCode(k) == /\ code[k] # Absent
              /\ ~(Fault = "falsy" /\ code[k].m = "zero")
Lookup(k) ==
    IF Fault = "envfirst" /\ env[k] # Absent THEN env[k]
    ELSE IF Fault = "defaultfirst" /\ k \in Known THEN Backed(k)
    ELSE IF HasCode(k) THEN Called(code[k])
    ELSE IF k \in Known THEN Backed(k) ELSE FromEnv(k)
\* what the part that uses the setting makes of it
Use(v) == IF v = Absent THEN "absent"
          ELSE IF v.t = "function" THEN "broken"
          ELSE IF v.t = "text" /\ Fault = "textbreaks" THEN "broken"
          ELSE IF v.t = "text" /\ v.m = "zero" /\ Fault = "truthytext" THEN "one"
          ELSE v.m
Read(k) == /\ atimport # <<>> /\ answers' = answers \cup {[k |-> k, m |-> Use(Lookup(k))]} /\ UNCHANGED <<env, atimport, code, steps>>
Next == Import \/ \E k \in Keys : Read(k) \/ \E v \in CodeValues : Configure(k, v)
Spec == Init /\ [][Next]_vars
\* ---- the property ---------------------------------------------------------------------------------------------------
Source(k) == IF code[k] # Absent THEN "code" ELSE IF env[k] # Absent THEN "env" ELSE IF k \in Known THEN "default" ELSE "none"
Want(k) == CASE Source(k) = "code" -> code[k].m [] Source(k) = "env" -> env[k].m [] Source(k) = "default" -> "default" [] OTHER -> "absent"
CodeWins == \A a \in answers : Source(a.k) = "code" => a.m = Want(a.k)
EnvWorks == \A a \in answers : Source(a.k) = "env" => a.m = Want(a.k)
ElseDefault == \A a \in answers : Source(a.k) \in {"default", "none"} => a.m = Want(a.k)
==================================================================================
