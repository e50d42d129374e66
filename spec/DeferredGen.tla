----------------------------- MODULE DeferredGen -----------------------------
(* All host scripts of up to MaxOps operations that end with an empty stack: the operations are carried out by a real *)
(* function that interprets them (see harness/c15.py).                                                               *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS MaxOps, MaxDepth
VARIABLES script, depth, raising, gen     \* gen: depth at which a generator is suspended (0: none), kind of each level
vars == <<script, depth, raising, gen>>
\* depth: sequence of "f" (function) and "g" (generator) levels
Init == script = <<"call">> /\ depth = <<"f">> /\ raising = FALSE /\ gen = "no"
Push(op, level) == script' = Append(script, op) /\ depth' = Append(depth, level)
Do(op) == script' = Append(script, op) /\ UNCHANGED depth
Leave(op) == script' = Append(script, op) /\ depth' = SubSeq(depth, 1, Len(depth) - 1)
Left == MaxOps - Len(script)
Top == depth[Len(depth)]
Next == /\ depth # <<>> /\ Left >= Len(depth)
        /\ \/ /\ ~raising
              /\ \/ Do("mark") /\ UNCHANGED <<raising, gen>>
                 \/ Len(depth) < MaxDepth /\ Push("call", "f") /\ UNCHANGED <<raising, gen>>
                 \/ Len(depth) < MaxDepth /\ gen = "no" /\ Push("gen", "g") /\ gen' = "run" /\ UNCHANGED raising
                 \/ Len(depth) < MaxDepth /\ gen = "off" /\ Push("resume", "g") /\ gen' = "run" /\ UNCHANGED raising
                 \/ Len(depth) < MaxDepth /\ gen = "off" /\ Push("throw", "g") /\ gen' = "run" /\ raising' = TRUE
                 \/ Top = "g" /\ Leave("yield") /\ gen' = "off" /\ UNCHANGED raising
                 \/ Leave("ret") /\ gen' = (IF Top = "g" THEN "end" ELSE gen) /\ UNCHANGED raising
                 \/ Do("raise") /\ raising' = TRUE /\ UNCHANGED gen
           \/ /\ raising
              /\ \/ Do("catch") /\ raising' = FALSE /\ UNCHANGED gen
                 \/ Leave("pass") /\ gen' = (IF Top = "g" THEN "end" ELSE gen) /\ raising' = (Len(depth) > 1)
Spec == Init /\ [][Next]_vars
Emit == depth = <<>> => PrintT("SCRIPT" \o ToJson(script))
=============================================================================
