----------------------------- MODULE ConfigSyncJudge -----------------------------
(* A history of the real agent: answers of the service, registrations, and what the agent reported and acted on.        *)
(* Events: [k: "update", tps, hash] [k: "nochange"] [k: "failed"] [k: "register", h, tp] [k: "unregister", h]            *)
(*         [k: "poll", hash]  [k: "acts", acts]  (everything had settled)                                                *)
(* tp: sequence of the effects it has when its place is reached; acts: sequence of [e, n], how often each effect happened *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
Start == [tps |-> <<>>, hash |-> "", custom |-> <<>>, fails |-> {}, last |-> "start"]
Flat(seqs) == FoldLeft(LAMBDA a, s : a \o s, <<>>, seqs)
Expected(st) == Flat(st.tps) \o Flat([i \in DOMAIN st.custom |-> st.custom[i].tp])
Count(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})
\* the differences between what happens and what has to happen
ActFails(st, acts) ==
    LET want == Expected(st)
        mine == Flat([i \in DOMAIN st.custom |-> st.custom[i].tp])
        got == {acts[i].e : i \in DOMAIN acts}
        Seen(x) == IF \E i \in DOMAIN acts : acts[i].e = x THEN acts[CHOOSE i \in DOMAIN acts : acts[i].e = x].n ELSE 0
        missing == {x \in {want[i] : i \in DOMAIN want} : Seen(x) < Count(want, x)}
        extra == {x \in got : Seen(x) > Count(want, x)} IN
    (IF \E x \in missing : x \in {mine[i] : i \in DOMAIN mine} THEN {"a tracepoint registered in code is not acted on as it was given, after: " \o st.last} ELSE {})
    \cup (IF \E x \in missing : x \notin {mine[i] : i \in DOMAIN mine} THEN {"a tracepoint of the latest configuration is not acted on, after: " \o st.last} ELSE {})
    \cup (IF extra # {} THEN {"the agent acts on something that is not installed any more, or twice, after: " \o st.last} ELSE {})
Apply(st, e) ==
    CASE e.k = "update" -> [st EXCEPT !.tps = e.tps, !.hash = e.hash, !.last = "update"]
      [] e.k = "nochange" -> [st EXCEPT !.last = "no change"]
      [] e.k = "failed" -> [st EXCEPT !.last = "failed poll"]
      [] e.k = "register" -> [st EXCEPT !.custom = Append(@, [h |-> e.h, tp |-> e.tp]), !.last = "register"]
      [] e.k = "unregister" -> [st EXCEPT !.custom = SelectSeq(@, LAMBDA r : r.h # e.h), !.last = "unregister"]
      [] e.k = "raised" -> [st EXCEPT !.fails = @ \cup {"an operation raises: " \o e.what}]
      [] e.k = "poll" -> [st EXCEPT !.fails = @ \cup (IF e.hash = st.hash THEN {} ELSE {"a poll reports a hash that is not that of the configuration, after: " \o st.last})]
      [] e.k = "acts" -> [st EXCEPT !.fails = @ \cup ActFails(st, e.acts)]
Failing(c) == FoldLeft(Apply, Start, c.events).fails
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
===================================================================================
