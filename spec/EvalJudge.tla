------------------------------- MODULE EvalJudge -------------------------------
(* Hits of a real program: the outcome of the condition and of each expression as the program itself computed them at  *)
(* that line, and what the agent did.                                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
R == INSTANCE Eval WITH Count <- 0, Hits <- 0, MaxExprs <- 0, Fault <- "none", exprs <- <<>>, spent <- 0, hit <- 0, cond <- "",
     pc <- "", results <- <<>>, out <- <<>>
Cases == ndJsonDeserialize(IOEnv.CASES)
\* hit = [cond, acts: how often each kind of action was seen, want: sequence of [err, text], got: sequence of the same]
\* (err of got: "yes", "no", "any"; an empty sequence got: not seen)
ResultFails(want, got) ==
    IF want.err /\ got.err = "no" THEN {"an expression that fails (or uses a name that is not visible) has a value"}
    ELSE IF ~want.err /\ got.err = "yes" THEN {"an expression that has a value in the frame fails"}
    ELSE IF ~want.err /\ want.text # got.text THEN {"the value of an expression is not that in the frame"}
    ELSE {}
HitFails(h, fires, due, never) ==
    (IF \E k \in DOMAIN h.acts : h.acts[k] > 0 /\ never THEN {"a hit that the condition rejects produces something"} ELSE {})
    \cup (IF \E k \in DOMAIN h.acts : h.acts[k] = 0 /\ due THEN {"a hit that the condition accepts, within the budget, produces nothing"} ELSE {})
    \cup (IF \E k \in DOMAIN h.acts : h.acts[k] > 1 THEN {"a hit produces more than one of the same"} ELSE {})
    \cup (IF fires /\ Len(h.got) # Len(h.want) THEN {"the results are not one per expression"} ELSE {})
    \cup (IF fires THEN UNION {ResultFails(h.want[j], h.got[j]) : j \in 1..(IF Len(h.got) < Len(h.want) THEN Len(h.got) ELSE Len(h.want))}
          ELSE {})
RECURSIVE Walk(_, _, _, _)
Walk(c, j, spent, fails) ==
    IF j > Len(c.hits) THEN fails
    ELSE LET h == c.hits[j]
             room == c.count = -1 \/ spent < c.count
             fires == \E k \in DOMAIN h.acts : h.acts[k] > 0 IN
         Walk(c, j + 1, IF fires THEN spent + 1 ELSE spent,
              fails \cup HitFails(h, fires, R!Accepts(h.cond) /\ room, R!Rejects(h.cond)))
Failing(c) == Walk(c, 1, 0, {})
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
=============================================================================
