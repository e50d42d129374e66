--------------------------------- MODULE Eval ---------------------------------
(* Conditions and expressions of a tracepoint (C10): the condition gates the hit, the other expressions are evaluated *)
(* one by one in the scope of the paused frame.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- rules -----------------------------------------------------------------------------------------------------------
\* where a name is bound; an expression uses one name, directly or in a nested scope (lambda, comprehension)
\* ("hides", "ghides": a variable of the frame / module that has the name of a builtin; "all": bound in all three)
Names == {"local", "global", "builtin", "both", "agent", "unknown", "hides", "ghides", "all"}
InLocals == {"local", "both", "hides", "all"}
InGlobals == {"global", "both", "ghides", "all"}
InBuiltins == {"builtin", "hides", "ghides", "all"}
InAgent == {"agent", "both"}
\* whose binding the expression sees
Visible(name) == IF name \in InLocals THEN "frame" ELSE IF name \in InGlobals THEN "module"
                 ELSE IF name \in InBuiltins THEN "builtins" ELSE "error"
\* conditions: a condition that fails rejects the hit; what a value that is not a truth value means is left open
Rejects(cond) == cond \in {"false", "error"}
Accepts(cond) == cond = "true"

\* ---- the design ------------------------------------------------------------------------------------------------------
CONSTANTS Count, Hits, MaxExprs, Fault
VARIABLES exprs,      \* the expressions of the tracepoint: sequence of [name, nested]
          spent,      \* fire budget used up
          hit,        \* number of hits so far
          cond,       \* outcome of the condition of the current hit
          pc,         \* "idle", "cond", "eval"
          results,    \* results of the current hit
          out         \* what was delivered: sequence of results
vars == <<exprs, spent, hit, cond, pc, results, out>>
Expr == [name : Names, nested : BOOLEAN]
Init == /\ exprs \in UNION {[1..k -> Expr] : k \in 0..MaxExprs}
        /\ spent = 0 /\ hit = 0 /\ cond = "true" /\ pc = "idle" /\ results = <<>> /\ out = <<>>

Reach == /\ pc = "idle" /\ hit < Hits
         /\ \E o \in {"true", "false", "error"} : cond' = o
         /\ hit' = hit + 1 /\ pc' = "cond" /\ results' = <<>>
         /\ UNCHANGED <<exprs, spent, out>>
Passes == IF Fault = "failopen" THEN cond # "false" ELSE Accepts(cond)
Gate == /\ pc = "cond"
        /\ IF Count # -1 /\ spent >= Count THEN pc' = "idle" /\ UNCHANGED spent
           ELSE /\ spent' = IF Passes \/ Fault = "spends" THEN spent + 1 ELSE spent
                /\ pc' = IF Passes THEN "eval" ELSE "idle"
        /\ UNCHANGED <<exprs, hit, cond, results, out>>
Result(e) ==
    IF Fault = "agent" /\ e.name \in InAgent THEN "agent"
    ELSE IF Fault = "globals" /\ e.name \in InGlobals THEN "module"
    ELSE IF Fault = "builtins" /\ e.name \in InBuiltins THEN "builtins"
    ELSE IF Fault = "nonested" /\ e.nested /\ e.name \in InLocals THEN "error"
    ELSE Visible(e.name)
Evaluate == /\ pc = "eval" /\ Len(results) < Len(exprs)
            /\ LET r == Result(exprs[Len(results) + 1]) IN
               IF Fault = "stops" /\ r = "error" THEN pc' = "idle" /\ UNCHANGED <<results, out>>
               ELSE results' = Append(results, r) /\ UNCHANGED <<pc, out>>
            /\ UNCHANGED <<exprs, spent, hit, cond>>
Deliver == /\ pc = "eval" /\ Len(results) = Len(exprs)
           /\ out' = Append(out, [hit |-> hit, cond |-> cond, results |-> results]) /\ pc' = "idle"
           /\ UNCHANGED <<exprs, spent, hit, cond, results>>
Next == Reach \/ Gate \/ Evaluate \/ Deliver
Spec == Init /\ [][Next]_vars

OnlyWhenTrue == \A j \in 1..Len(out) : out[j].cond = "true"
RejectedIsFree == pc = "idle" => spent = Len(out)
FrameScope == \A j \in 1..Len(out) : \A k \in 1..Len(exprs) : out[j].results[k] = Visible(exprs[k].name)
\* a hit that is due is delivered with one result per expression
DueIsDelivered == [][pc = "cond" /\ cond = "true" /\ (Count = -1 \/ Len(out) < Count) => pc' = "eval"]_vars
OneResultEach == \A j \in 1..Len(out) : Len(out[j].results) = Len(exprs)
NotLost == [][pc = "eval" /\ pc' = "idle" => Len(out') = Len(out) + 1]_vars
=============================================================================
