---------------------------- MODULE DeferredJudge ----------------------------
(* Recorded executions: what was opened, the events of the invocations that opened it, and what was completed, against *)
(* the rules of Deferred.                                                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
D == INSTANCE Deferred WITH Threads <- {}, Late <- {}, Ident <- <<>>, MaxDepth <- 0, MaxEvents <- 0, Kinds <- {}, MaxFrames <- 0,
     Fault <- {}, stack <- <<>>, raising <- <<>>, handling <- <<>>, ended <- {}, suspended <- <<>>, frames <- 0, n <- 0,
     pending <- <<>>, opened <- {}, done <- {}
Cases == ndJsonDeserialize(IOEnv.CASES)
Elems(s) == {s[j] : j \in 1..Len(s)}

\* opening o: [o, tp, kind, i, inv (index of the invocation), th]; completion d: [o, i, th, caps (captured results)]
OfOpening(c, o) ==
    LET mine == {j \in 1..Len(c.comps) : c.comps[j].o = o.o}
        inv == c.invs[o.inv]
        may == D!Completes(inv, o)
        last == D!After(inv, o)
        endi == IF last = <<>> THEN 0 ELSE last[IF D!OfLine(o.kind) THEN 1 ELSE D!EndIndex(last)].i IN
    (IF mine = {} /\ may # {} THEN {"work that was opened is never completed"} ELSE {})
    \cup (IF Cardinality(mine) > 1 THEN {"work is completed more than once"} ELSE {})
    \cup UNION {
        LET d == c.comps[j] IN
        (IF d.th # o.th THEN {"work is completed on another thread"} ELSE {})
        \cup (IF d.i <= o.i THEN {"work is completed before the program moved on"} ELSE {})
        \cup (IF d.th = o.th /\ d.i > o.i /\ d.i \notin may
              THEN IF d.i > endi THEN {"work is completed after the line or invocation that opened it has ended"}
                   ELSE {"work is completed while the line or invocation that opened it is still running"}
              ELSE {})
        \cup (IF D!IsCapture(o.kind) /\ d.i \in may
              THEN LET want == D!Result(inv, o) IN
                   IF want.k = "none"
                   THEN IF d.caps # <<>> THEN {"a result is captured where nothing was returned or raised"} ELSE {}
                   ELSE IF Len(d.caps) # 1 THEN {"there is not exactly one captured result"}
                        ELSE IF want \notin Elems(d.caps[1]) THEN {"the captured result is not that of the invocation"} ELSE {}
              ELSE {})
        : j \in mine}
Failing(c) == (UNION {OfOpening(c, c.opens[j]) : j \in 1..Len(c.opens)})
              \cup (IF \E j \in 1..Len(c.comps) : c.comps[j].o = 0 THEN {"work is completed that was not opened"} ELSE {})
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
=============================================================================
