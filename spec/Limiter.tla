------------------------------- MODULE Limiter -------------------------------
(* Fire limits of one tracepoint action (C04) and the condition that gates it (C10).                               *)
(*                                                                                                                  *)
(* A thread arrives at the location (the time of the event is taken once, at arrival), and later decides whether it *)
(* collects. Arrivals and decisions of different threads interleave freely, and time passes in between. Meanwhile a  *)
(* new configuration that has the same tracepoint can be installed: hits of the old and of the new one interleave,    *)
(* and the limits hold for both of them together.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- rules, over an explicit configuration cf = [count, period, ws, we] (also used on traces of the real code) ----
Abs(n) == IF n < 0 THEN -n ELSE n

CountOk(cf, fires) == cf.count = -1 \/ Len(fires) < cf.count

\* 0 means that this end of the window is not configured; what happens exactly on an end is left open
OutsideWindow(cf, ts) == (cf.ws > 0 /\ ts < cf.ws) \/ (cf.we > 0 /\ ts > cf.we)
OnWindowEdge(cf, ts) == (cf.ws > 0 /\ ts = cf.ws) \/ (cf.we > 0 /\ ts = cf.we)
InsideWindow(cf, ts) == ~OutsideWindow(cf, ts) /\ ~OnWindowEdge(cf, ts)

Spaced(cf, fires, ts) == \A i \in 1..Len(fires) : Abs(ts - fires[i]) >= cf.period
After(cf, fires, ts) == \A i \in 1..Len(fires) : ts >= fires[i] /\ ts - fires[i] >= cf.period

\* a collection is permitted / is required
May(cf, fires, ts) == CountOk(cf, fires) /\ ~OutsideWindow(cf, ts) /\ Spaced(cf, fires, ts)
Must(cf, fires, ts) == CountOk(cf, fires) /\ InsideWindow(cf, ts) /\ After(cf, fires, ts)

\* ---- the design -------------------------------------------------------------------------------------------------
CONSTANTS Thread, Count, Period, WinStart, WinEnd, MaxTime, MaxHits, MaxInstalls,
          Fault      \* "none", or a design mistake that the properties have to refute

VARIABLES now, fires, pc, ts, cond, hits,
          inst,      \* number of installations of the tracepoint so far
          rec,       \* what each installation knows to have been collected (the design: all know the same)
          of,        \* the installation that a thread has hit
          last       \* ghost: the last decision [due, cond, fired]
vars == <<now, fires, pc, ts, cond, hits, inst, rec, of, last>>

CF == [count |-> Count, period |-> Period, ws |-> WinStart, we |-> WinEnd]

Init == /\ now = 1 /\ fires = <<>> /\ hits = 0
        /\ pc = [t \in Thread |-> "idle"] /\ ts = [t \in Thread |-> 0] /\ cond = [t \in Thread |-> TRUE]
        /\ inst = 1 /\ rec = [i \in 1..MaxInstalls |-> <<>>] /\ of = [t \in Thread |-> 1]
        /\ last = [must |-> FALSE, may |-> FALSE, cond |-> FALSE, fired |-> FALSE]

Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<fires, pc, ts, cond, hits, inst, rec, of, last>>

\* another configuration, that has this tracepoint too
Install == /\ inst < MaxInstalls /\ inst' = inst + 1
           /\ rec' = IF Fault = "resets" THEN rec ELSE [rec EXCEPT ![inst + 1] = rec[inst]]
           /\ UNCHANGED <<now, fires, pc, ts, cond, hits, of, last>>

Arrive(t) == /\ pc[t] = "idle" /\ hits < MaxHits
             /\ \E c \in BOOLEAN : cond' = [cond EXCEPT ![t] = c]
             /\ pc' = [pc EXCEPT ![t] = "arrived"] /\ ts' = [ts EXCEPT ![t] = now] /\ hits' = hits + 1
             /\ of' = [of EXCEPT ![t] = inst]
             /\ UNCHANGED <<now, fires, inst, rec, last>>

\* what the design does: it compares with the last collection only
Known(t) == rec[of[t]]
LastFire(t) == Known(t)[Len(Known(t))]
SinceLastOk(t) ==
    \/ Known(t) = <<>>
    \/ Period <= 0
    \/ IF Fault = "boundary" THEN ts[t] - LastFire(t) > Period ELSE ts[t] - LastFire(t) >= Period
WindowOk(t) == \/ Fault = "nowindow"
               \/ (WinStart = 0 \/ WinStart <= ts[t]) /\ (WinEnd = 0 \/ ts[t] <= WinEnd)
Admits(t) == CountOk(CF, Known(t)) /\ WindowOk(t) /\ SinceLastOk(t)

Outcome(t, admitted) ==
    LET fire == admitted /\ cond[t]
        spent == fire \/ (Fault = "condspends" /\ admitted) IN
    /\ fires' = IF spent THEN Append(fires, ts[t]) ELSE fires
    \* installations that do not exist yet take over what the one before them knows
    /\ rec' = IF ~spent THEN rec
              ELSE [i \in 1..MaxInstalls |-> IF i <= inst /\ (Fault \notin {"resets", "copies"} \/ i = of[t]) THEN Append(rec[i], ts[t]) ELSE rec[i]]
    /\ last' = [must |-> Must(CF, fires, ts[t]), may |-> May(CF, fires, ts[t]), cond |-> cond[t], fired |-> fire]
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ UNCHANGED <<now, ts, cond, hits, inst, of>>

Decide(t) == pc[t] = "arrived" /\ Fault # "race" /\ Outcome(t, Admits(t))

\* the mistake of the original code: the check and the record are two steps
Check(t) == /\ pc[t] = "arrived" /\ Fault = "race"
            /\ pc' = [pc EXCEPT ![t] = IF Admits(t) THEN "checked" ELSE "idle"]
            /\ UNCHANGED <<now, fires, ts, cond, hits, inst, rec, of, last>>
Record(t) == pc[t] = "checked" /\ Outcome(t, TRUE)

Next == Tick \/ Install \/ \E t \in Thread : Arrive(t) \/ Decide(t) \/ Check(t) \/ Record(t)
Spec == Init /\ [][Next]_vars

\* ---- properties (C04) -------------------------------------------------------------------------------------------
CountNeverExceeded == Count # -1 => Len(fires) <= Count
NeverTooClose == \A i, j \in 1..Len(fires) : i # j => Abs(fires[i] - fires[j]) >= Period
NeverOutsideWindow == \A i \in 1..Len(fires) : ~OutsideWindow(CF, fires[i])
DueHitsCollect == last.must /\ last.cond => last.fired
OnlyPermitted == last.fired => last.may
\* ---- properties (C10) -------------------------------------------------------------------------------------------
RejectedCostsNothing == [][Len(fires') > Len(fires) => last'.fired]_vars
=============================================================================
