------------------------------ MODULE ConfigJudge ------------------------------
(* How the real agent resolves and uses settings.                                                                       *)
(* Case "read": key, known, code / env / default: [on, v] (v: normal form), got: [on, v]                                   *)
(* Case "frames": include, exclude, root (texts; rootopen: whether it is the empty text), frames: [file, app, short]        *)
(* Case "life": settings: key -> [code: [on, v], env: [on, v], default: [on, v]]; seen: key -> what the agent did (normal)  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC, AppFrame
Cases == ndJsonDeserialize(IOEnv.CASES)
Resolved(s) == IF s.code.on THEN s.code ELSE IF s.env.on THEN s.env ELSE s.default
Source(s) == IF s.code.on THEN "code" ELSE IF s.env.on THEN "environment" ELSE "default"
Blame(s) == CASE Source(s) = "code" -> "a value given in code does not win"
              [] Source(s) = "environment" -> "a value of the environment is not used"
              [] OTHER -> "a setting that is not given is not the default"
ReadFails(c) == LET want == Resolved(c) IN
    IF c.raised # "" THEN {"reading a setting raises"}
    ELSE IF ~want.on THEN (IF c.got.on THEN {"a setting that is nowhere is not absent"} ELSE {})
    ELSE IF c.got.on /\ c.got.v = want.v THEN {}
    ELSE IF c.called THEN {"a value supplied as a function is not called"}
    ELSE {Blame(c)}
FramesFails(c) == UNION {LET f == c.frames[i]  shorts == ShortPaths(f.file, c.include, c.exclude, c.root)
                             open == c.root = "" /\ ~IsApp(f.file, c.include, c.exclude, c.root)
                                     /\ \A p \in Elements(c.exclude) : ~Under(f.file, p) IN
    (IF f.app = IsApp(f.file, c.include, c.exclude, c.root) \/ open THEN {} ELSE {"a frame is not classified by its file"})
    \cup (IF f.short \in shorts THEN {} ELSE {"the short path is not the file name without the prefix"}) : i \in DOMAIN c.frames}
    \cup (IF c.raised = "" THEN {} ELSE {"classifying a frame raises"})
LifeFails(c) ==
    (IF c.raised = "" THEN {} ELSE {"the agent does not work with these settings"})
    \cup (IF c.raised # "" THEN {} ELSE
          UNION {LET s == c.settings[i]  want == Resolved(s) IN
                 IF s.seen \in {want.v, "unobserved"} THEN {} ELSE {Blame(s) \o ": " \o s.key} : i \in DOMAIN c.settings})
    \cup (IF c.raised # "" THEN {} ELSE FramesFails([c.frames EXCEPT !.raised = ""]))
Failing(c) == CASE c.kind = "read" -> ReadFails(c) [] c.kind = "frames" -> FramesFails(c) [] OTHER -> LifeFails(c)
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
================================================================================
