------------------------------ MODULE PluginsJudge ------------------------------
(* What the real agent did with its plugins.                                                                             *)
(* Case "load": plugins: in the configured order [name, cond ("ok", "skip", "either"), order (integer)], raised, got: names *)
(* Case "life": plugins as above with roles; hits; started, startraised, stopraised, hostraised; ran: installed and run;   *)
(*   calls: [p: name, c: callback, at: which hit (0: start, -1: shutdown), n, how ("ok", "raise", "odd")] in their order;    *)
(*   resource: names whose attribute every snapshot carries; some: names in any; winner: whose shared attribute is carried;  *)
(*   snapshots: the decorations of each [name, n]; metrics: how many metrics a hit has                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
Set(s) == {s[i] : i \in DOMAIN s}
Of(c, name) == c.plugins[CHOOSE i \in DOMAIN c.plugins : c.plugins[i].name = name]
Names(c, cond) == {c.plugins[i].name : i \in {j \in DOMAIN c.plugins : c.plugins[j].cond = cond}}
LoadFails(c) ==
    (IF c.raised = "" THEN {} ELSE {"loading the plugins raises"})
    \cup (IF c.raised # "" \/ Names(c, "ok") \subseteq Set(c.got) THEN {} ELSE {"a plugin is not loaded although it can be and is on"})
    \cup (IF Set(c.got) \cap Names(c, "skip") = {} THEN {} ELSE {"a plugin that is off, missing or cannot be made is loaded"})
    \cup (IF Set(c.got) \subseteq {c.plugins[i].name : i \in DOMAIN c.plugins} /\ Cardinality(Set(c.got)) = Len(c.got) THEN {}
          ELSE {"what is loaded is not what is configured"})
    \cup (LET got == SelectSeq(c.got, LAMBDA n : n \in Names(c, "ok")) IN
          IF \A i \in 1..Len(got) - 1 : Of(c, got[i]).order <= Of(c, got[i + 1]).order THEN {}
          ELSE {"the plugins are not in their declared order"})
\* ---- lives -----------------------------------------------------------------------------------------------------------
Good(c, role) == {c.plugins[i].name : i \in {j \in DOMAIN c.plugins : c.plugins[j].cond = "ok" /\ role \in Set(c.plugins[j].roles)}}
Calls(c, cb, at) == SelectSeq(c.calls, LAMBDA x : x.c = cb /\ x.at = at)
Callers(calls) == {calls[i].p : i \in DOMAIN calls}
Count(calls, p) == Cardinality({i \in DOMAIN calls : calls[i].p = p})
InOrder(c, all) == LET calls == SelectSeq(all, LAMBDA x : Of(c, x.p).cond = "ok") IN
                   \A i \in 1..Len(calls) - 1 : Of(c, calls[i].p).order <= Of(c, calls[i + 1].p).order
Well(calls) == SelectSeq(calls, LAMBDA x : x.how = "ok")
Hits(c) == 1..c.hits
Top(c, names) == {n \in names : \A m \in names : Of(c, m).order <= Of(c, n).order}
LifeFails(c) ==
    (IF c.startraised = "" /\ c.started THEN {} ELSE {"the agent does not start"})
    \cup (IF Callers(c.calls) \cap Names(c, "skip") = {} THEN {} ELSE {"a plugin that is off, missing or cannot be made is used"})
    \cup (IF c.stopraised = "" THEN {} ELSE {"the agent does not shut down"})
    \cup (IF c.hostraised = "" THEN {} ELSE {"the failure reaches the host"})
    \cup (IF ~c.started THEN {} ELSE
          (IF Good(c, "resource") \subseteq Callers(Calls(c, "resource", 0)) THEN {} ELSE {"another plugin is not asked for its resource"})
          \cup (IF InOrder(c, Calls(c, "resource", 0)) THEN {} ELSE {"the resource is not asked for in the declared order"})
          \cup (LET well == Callers(Well(Calls(c, "resource", 0))) IN
                IF ~c.ran \/ c.snapshots = <<>> THEN {}
                ELSE (IF well \subseteq Set(c.resource) THEN {} ELSE {"the resource of another plugin is lost"})
                     \cup (IF (c.winner = "" /\ well = {}) \/ c.winner \in Top(c, well) \/ \E x \in Set(c.calls) : x.c = "resource" /\ x.how = "odd" THEN {}
                           ELSE {"a resource does not override that of a plugin before it"}))
          \cup (IF \A p \in Good(c, "shutdown") : Count(Calls(c, "shutdown", -1), p) >= 1 THEN {} ELSE {"another plugin is not shut down"}))
    \cup (IF ~c.started \/ ~c.ran THEN {} ELSE UNION {
            (IF Good(c, "decorate") \subseteq Callers(Calls(c, "decorate", h)) THEN {} ELSE {"another plugin does not decorate"})
            \cup (IF InOrder(c, Calls(c, "decorate", h)) THEN {} ELSE {"the snapshot is not decorated in the declared order"})
            \cup (IF Good(c, "log") = {} \/ Callers(Calls(c, "log", h)) # {} THEN {} ELSE {"nothing is logged"})
            \cup (IF Good(c, "log2") = {} \/ Callers(Calls(c, "log2", h)) # {} THEN {} ELSE {"nothing is logged without a snapshot"})
            \cup (IF Good(c, "open") \subseteq Callers(Calls(c, "open", h)) THEN {} ELSE {"another plugin does not create its span"})
            \cup (IF Good(c, "open2") \subseteq Callers(Calls(c, "open2", h)) THEN {} ELSE {"another plugin does not create its span of the method"})
            \cup (IF InOrder(c, Calls(c, "open", h)) THEN {} ELSE {"the spans are not created in the declared order"})
            \cup (IF Callers(Well(Calls(c, "open", h))) = Callers(Calls(c, "close", h)) THEN {} ELSE {"another span is not closed"})
            \cup (IF Callers(Well(Calls(c, "open2", h))) = Callers(Calls(c, "close2", h)) THEN {} ELSE {"another span of a method is not closed"})
            \cup (IF \A p \in Good(c, "metric") : LET mine == SelectSeq(Calls(c, "metric", h), LAMBDA x : x.p = p) IN
                      Len(mine) >= IF Well(mine) = mine THEN c.metrics ELSE 1 THEN {} ELSE {"another plugin does not record a metric"})
            : h \in Hits(c)}
          \cup (IF Len(c.snapshots) >= c.hits THEN {} ELSE {"a snapshot is not delivered"})
          \cup (LET want == {<<c.calls[i].p, c.calls[i].n>> : i \in {j \in DOMAIN c.calls : c.calls[j].c = "decorate" /\ c.calls[j].how = "ok"}}
                    got == UNION {{<<d.p, d.n>> : d \in Set(c.snapshots[i])} : i \in DOMAIN c.snapshots} IN
                (IF want \subseteq got \/ Len(c.snapshots) < c.hits THEN {} ELSE {"a decoration of another plugin is lost"})
                \cup (IF c.builtin THEN {} ELSE {"a decoration of a plugin of the agent is lost"})))
Failing(c) == IF c.kind = "load" THEN LoadFails(c) ELSE LifeFails(c)
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
=================================================================================
