----------------------------- MODULE AttributesJudge -----------------------------
(* Recorded histories of a real store. Case: [cap, limit (-1: none), frozen, first: the store as it was made from `made`, *)
(* steps: [op, kv: the keys and values given, raised, ent, dropped]]. Entries: [k, v].                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC, Clean
Cases == ndJsonDeserialize(IOEnv.CASES)
Has(ent, k) == \E i \in DOMAIN ent : ent[i].k = k
Without(ent, k) == SelectSeq(ent, LAMBDA e : e.k # k)
Store(ent, dropped) == [ent |-> ent, dropped |-> dropped]
\* what one assignment may lead to (a set: with no room at all an invalid value may or may not be counted)
Put(c, st, kv) ==
    LET v == Value(kv.v, c.limit)
        ok == KeyOk(kv.k) /\ v # Invalid IN
    IF c.cap = 0 THEN {Store(st.ent, st.dropped + 1)} \cup (IF ok THEN {} ELSE {st})
    ELSE IF ~ok THEN {st}
    ELSE IF ~Has(st.ent, kv.k.s) /\ c.cap > 0 /\ Len(st.ent) >= c.cap
    THEN {Store(Append(Tail(st.ent), [k |-> kv.k.s, v |-> v]), st.dropped + 1)}
    ELSE {Store(Append(Without(st.ent, kv.k.s), [k |-> kv.k.s, v |-> v]), st.dropped)}
PutAll(c, st, kvs) == FoldLeft(LAMBDA sts, kv : UNION {Put(c, s, kv) : s \in sts}, {st}, kvs)
After(c, st, e) ==
    CASE e.op \in {"set", "merge", "update", "make"} -> PutAll(c, st, e.kv)
      [] e.op \in {"del", "pop"} -> {Store(Without(st.ent, e.kv[1].k.s), st.dropped)}
      [] e.op = "popitem" -> {Store(Without(st.ent, st.ent[i].k), st.dropped) : i \in DOMAIN st.ent} \cup (IF st.ent = <<>> THEN {st} ELSE {})
      [] e.op = "clear" -> {Store(<<>>, st.dropped)}
      [] e.op = "default" -> IF Has(st.ent, e.kv[1].k.s) THEN {st} ELSE Put(c, st, e.kv[1])
      [] OTHER -> {st}                                   \* reads, and changes of what was read or given
Fails(c, st, e) ==
    LET now == Store(e.ent, e.dropped)
        may == IF c.frozen /\ e.op # "make" THEN {st} ELSE After(c, st, e) IN
    (IF c.cap >= 0 /\ Len(e.ent) > c.cap THEN {"holds more than its capacity"} ELSE {})
    \cup (IF now \in may THEN {}
          ELSE IF c.frozen /\ e.op # "make" THEN {"a frozen store is modified by " \o e.op}
          ELSE IF \E s \in may : s.ent = now.ent THEN {"drops are not counted correctly"}
          ELSE IF \E s \in may : {s.ent[i].k : i \in DOMAIN s.ent} = {now.ent[i].k : i \in DOMAIN now.ent} /\ Len(s.ent) = Len(now.ent)
          THEN IF \E s \in may : {s.ent[i] : i \in DOMAIN s.ent} = {now.ent[i] : i \in DOMAIN now.ent} THEN {"the order of the entries is not that of their age, after " \o e.op}
               ELSE {"a value is not stored as the cleaned value, after " \o e.op}
          ELSE {"the keys that are kept are the wrong ones, after " \o e.op})
    \cup (IF c.frozen /\ e.op # "make" /\ e.raised = "" /\ e.op \in {"set", "del", "merge", "update", "clear", "popitem", "pop"} /\ After(c, st, e) # {st}
          THEN {"a frozen store does not reject " \o e.op} ELSE {})
    \cup (IF ~c.frozen /\ e.raised # "" /\ e.op \in {"make", "set", "merge", "update"} THEN {"an operation raises: " \o e.op} ELSE {})
Step(c, st, e) == [ent |-> e.ent, dropped |-> e.dropped, fails |-> st.fails \cup Fails(c, Store(st.ent, st.dropped), e)]
Sequential(c) == FoldLeft(LAMBDA st, e : Step(c, st, e), [ent |-> <<>>, dropped |-> 0, fails |-> {}], c.steps).fails
\* two threads: the end has to be that of one of the orders
RECURSIVE Ends(_, _, _, _)
Ends(c, st, a, b) ==
    IF a = <<>> /\ b = <<>> THEN {st}
    ELSE (IF a = <<>> THEN {} ELSE UNION {Ends(c, s, Tail(a), b) : s \in After(c, st, Head(a))})
    \cup (IF b = <<>> THEN {} ELSE UNION {Ends(c, s, a, Tail(b)) : s \in After(c, st, Head(b))})
Concurrent(c) ==
    LET ends == Ends(c, Store(c.start.ent, c.start.dropped), c.one, c.two)
        now == Store(c.ent, c.dropped) IN
    (IF c.cap >= 0 /\ c.most > c.cap THEN {"holds more than its capacity (threads)"} ELSE {})
    \cup (IF c.raised # "" THEN {"an operation raises (threads)"} ELSE {})
    \cup (IF now \in ends THEN {} ELSE {"the result of concurrent operations is not that of any order of them"})
Failing(c) == IF c.kind = "threads" THEN Concurrent(c) ELSE Sequential(c)
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
==================================================================================
