------------------------------- MODULE Interpret -------------------------------
(* How the arguments of a tracepoint are read, and how a list of them is installed (C11).                              *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- rules -----------------------------------------------------------------------------------------------------------
\* args: a record with a text for every key, "absent" when the tracepoint does not have it
LineStages == {"line_start", "line_end", "line_capture"}
MethodStages == {"method_start", "method_end", "method_capture"}
Understood(args) == args.stage \in {"absent"} \cup LineStages \cup MethodStages
\* the stage decides; without one a method name or a span around the method asks for the method
Place(args) ==
    IF args.stage \in LineStages THEN "line"
    ELSE IF args.stage \in MethodStages THEN "method"
    ELSE IF args.method_name # "absent" \/ args.span = "method" THEN "method" ELSE "line"
\* the actions that are asked for; metrics: number of metric definitions
Kinds(args, metrics) ==
    (IF args.snapshot # "no_collect" THEN {"snapshot"} ELSE {})
    \cup (IF args.log_msg # "absent" THEN {"log"} ELSE {})
    \cup (IF metrics > 0 THEN {"metric"} ELSE {})
    \cup (IF args.span \in {"line", "method"} THEN {"span"} ELSE {})
\* an unknown kind of span may be a span or not
Perhaps(args) == IF args.span \in {"absent", "line", "method"} THEN {} ELSE {"span"}
\* how many frames have variables: "one" (the first), "all", "none"; an unknown type is a single frame
Frames(args) == IF args.frame_type = "all_frame" THEN "all" ELSE IF args.frame_type = "no_frame" THEN "none" ELSE "one"
\* the snapshot of some stages is sent later
Later(args) == args.stage \in {"line_end", "line_capture", "method_end", "method_capture"}

\* ---- the design: a response is installed one tracepoint at a time ----------------------------------------------------
CONSTANTS MaxTps, Fault
VARIABLES tps, next, installed,   \* installed: location -> set of [id, kind, cond]
          acts                    \* what happened at the last hit
vars == <<tps, next, installed, acts>>
Args == [stage : {"absent", "line_start", "method_capture", "odd"}, method_name : {"absent", "f"}, span : {"absent", "method"},
         snapshot : {"absent", "no_collect"}, log_msg : {"absent", "m"}, frame_type : {"absent"}]
Tp == [args : Args, metrics : {0, 1}, cond : {"always", "never"}]
Locations == {"line", "method"}
Init == /\ tps \in [1..MaxTps -> Tp]
        /\ next = 1 /\ installed = [l \in Locations |-> {}] /\ acts = {}
ActionsOf(j) == {[id |-> j, kind |-> k, cond |-> tps[j].cond] : k \in Kinds(tps[j].args, tps[j].metrics)}
Built(j) == LET set == ActionsOf(j) IN
            IF Fault = "logeats" /\ \E a \in set : a.kind = "log" THEN {a \in set : a.kind # "snapshot"} ELSE set
Install == /\ next <= Len(tps)
           /\ LET t == tps[next]
                  l == Place(t.args)
                  merged == IF Fault = "replace" THEN Built(next)
                            ELSE IF Fault = "sharedcond" THEN installed[l] \cup {[a EXCEPT !.cond = IF installed[l] = {} THEN a.cond
                                                                 ELSE (CHOOSE b \in installed[l] : TRUE).cond] : a \in Built(next)}
                            ELSE installed[l] \cup Built(next) IN
              IF Understood(t.args) THEN installed' = [installed EXCEPT ![l] = merged] /\ next' = next + 1
              ELSE IF Fault = "abort" THEN next' = Len(tps) + 1 /\ UNCHANGED installed
              ELSE next' = next + 1 /\ UNCHANGED installed
           /\ UNCHANGED <<tps, acts>>
Hit == /\ next > Len(tps)
       /\ \E l \in Locations : acts' = {a \in installed[l] : a.cond = "always"} \cup {[id |-> 0, kind |-> l, cond |-> "hit"]}
       /\ UNCHANGED <<tps, next, installed>>
Next == Install \/ Hit
Spec == Init /\ [][Next]_vars
HitAt(l) == \E a \in acts : a.id = 0 /\ a.kind = l
Wanted(l) == {<<j, k>> \in (DOMAIN tps) \X {"snapshot", "log", "metric", "span"} :
                Understood(tps[j].args) /\ Place(tps[j].args) = l /\ tps[j].cond = "always" /\ k \in Kinds(tps[j].args, tps[j].metrics)}
ExactlyAsked == \A l \in Locations : HitAt(l) => {<<a.id, a.kind>> : a \in {b \in acts : b.id > 0}} = Wanted(l)
=============================================================================
