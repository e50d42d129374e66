------------------------------ MODULE ResourceJudge ------------------------------
(* The resources of the real agent.                                                                                      *)
(* Case "client": env: [set, text (code points)], name: [set, text], chain: [pairs, schema] (code, then plugins; a plugin  *)
(*   that does not work: [broken]), seen: resources as [pairs, from]; version.  Pairs: [k: code points, v: value]          *)
(* Case "merge": chain: [pairs, schema], got: [pairs, schema], same: were the operands left alone                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC, Clean
Cases == ndJsonDeserialize(IOEnv.CASES)
Has(pairs, k) == \E i \in DOMAIN pairs : pairs[i].k = k
Get(pairs, k) == IF Has(pairs, k) THEN (pairs[CHOOSE i \in DOMAIN pairs : pairs[i].k = k]).v ELSE [t |-> "absent"]
Put(pairs, kv) == IF kv.k = <<>> \/ Value(kv.v, -1) = Invalid THEN pairs
                  ELSE Append(SelectSeq(pairs, LAMBDA e : e.k # kv.k), [k |-> kv.k, v |-> Value(kv.v, -1)])
Over(a, b) == FoldLeft(Put, a, b)
Merge(a, b) == IF a.schema # <<>> /\ b.schema # <<>> /\ a.schema # b.schema THEN a
               ELSE [pairs |-> Over(a.pairs, b.pairs), schema |-> IF a.schema # <<>> THEN a.schema ELSE b.schema]
\* ---- the variables of the environment --------------------------------------------------------------------------------
Blank == {32, 9}
Trim(c) == LET ok == {i \in DOMAIN c : c[i] \notin Blank} IN
           IF ok = {} THEN <<>> ELSE SubSeq(c, CHOOSE i \in ok : \A j \in ok : i <= j, CHOOSE i \in ok : \A j \in ok : i >= j)
\* split at the separators: [done: parts, cur]
Split(c, sep) == LET a == FoldLeft(LAMBDA s, x : IF x = sep THEN [done |-> Append(s.done, s.cur), cur |-> <<>>] ELSE [s EXCEPT !.cur = Append(@, x)],
                                   [done |-> <<>>, cur |-> <<>>], c) IN Append(a.done, a.cur)
Eq(c) == IF \E i \in DOMAIN c : c[i] = 61 THEN CHOOSE i \in DOMAIN c : c[i] = 61 /\ \A j \in 1..i - 1 : c[j] # 61 ELSE 0
Hex(x) == CASE x \in 48..57 -> x - 48 [] x \in 65..70 -> x - 55 [] x \in 97..102 -> x - 87 [] OTHER -> -1
Encode(x) == CASE x < 128 -> <<x>>
               [] x < 2048 -> <<192 + x \div 64, 128 + (x % 64)>>
               [] x < 65536 -> <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
               [] OTHER -> <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
RECURSIVE Unquote(_, _)
Unquote(c, i) == IF i > Len(c) THEN <<>>
                 ELSE IF c[i] = 37 /\ i + 2 <= Len(c) /\ Hex(c[i + 1]) >= 0 /\ Hex(c[i + 2]) >= 0
                 THEN <<16 * Hex(c[i + 1]) + Hex(c[i + 2])>> \o Unquote(c, i + 3)
                 ELSE Encode(c[i]) \o Unquote(c, i + 1)
Text(c) == [t |-> "str", c |-> c]
Item(pairs, c) == IF Eq(c) = 0 THEN pairs
                  ELSE Put(pairs, [k |-> Trim(SubSeq(c, 1, Eq(c) - 1)), v |-> Decode(Unquote(Trim(SubSeq(c, Eq(c) + 1, Len(c))), 1))])
Environment(c) == FoldLeft(Item, <<>>, Split(c, 44))
\* ---- the client ------------------------------------------------------------------------------------------------------
S(c, name) == c.names[name]                     \* names as code points, given by the driver
BuiltIn(c) == << [k |-> S(c, "lang"), v |-> Text(S(c, "python"))], [k |-> S(c, "sdk"), v |-> Text(S(c, "deep"))], [k |-> S(c, "version"), v |-> Text(S(c, "number"))] >>
FromEnv(c) == Over(IF c.env.set THEN Environment(c.env.text) ELSE <<>>,
                   IF c.name.set /\ c.name.text # <<>> THEN <<[k |-> S(c, "service"), v |-> Text(c.name.text)]>> ELSE <<>>)
Named(pairs, c) == LET v == Get(pairs, S(c, "service")) IN v.t # "absent" /\ v # Text(<<>>)
Fallback(r, c) == IF Named(r.pairs, c) THEN r
                  ELSE LET exe == Get(r.pairs, S(c, "exe"))
                           tail == IF exe.t = "str" /\ exe.c # <<>> THEN exe.c ELSE S(c, "python") IN
                       [r EXCEPT !.pairs = Put(@, [k |-> S(c, "service"), v |-> Text(S(c, "unknown") \o tail)])]
Created(c) == Fallback(Merge(Merge([pairs |-> BuiltIn(c), schema |-> <<>>], [pairs |-> FromEnv(c), schema |-> <<>>]), c.code), c)
Client(c) == FoldLeft(LAMBDA r, p : IF p.broken THEN r ELSE Merge(r, p), Created(c), c.plugins)
Same(a, b) == {a[i].k : i \in DOMAIN a} = {b[i].k : i \in DOMAIN b} /\ \A i \in DOMAIN a : Get(b, a[i].k) = a[i].v
Mandatory(pairs, c, where) == IF \A n \in {"lang", "sdk", "version"} : Has(pairs, S(c, n)) THEN {} ELSE {"an identity key of the SDK is missing in " \o where}
Judge(got, want, c, where) ==
    Mandatory(got, c, where)
    \cup (IF Named(got, c) THEN {} ELSE {"there is no service name in " \o where})
    \cup (IF Same(got, want) THEN {}
          ELSE IF Named(want, c) THEN {"the sources are not combined key by key with later ones overriding, in " \o where}
          \* no source gives a name: any will do
          ELSE IF Same(SelectSeq(got, LAMBDA e : e.k # S(c, "service")), SelectSeq(want, LAMBDA e : e.k # S(c, "service"))) THEN {}
          ELSE {"the sources are not combined key by key with later ones overriding, in " \o where})
SeenFails(c) == UNION {LET s == c.seen[i] IN Judge(s.pairs, IF s.from = "create" THEN Created(c).pairs ELSE Client(c).pairs, c, s.from) : i \in DOMAIN c.seen}
                \cup (IF c.raised = "" THEN {} ELSE {"the agent cannot determine its resource"})
                \cup (IF c.same THEN {} ELSE {"merging modifies an operand"})
MergeFails(c) ==
    LET want == FoldLeft(Merge, c.chain[1], SubSeq(c.chain, 2, Len(c.chain))) IN
    (IF c.raised = "" THEN {} ELSE {"merging raises"})
    \cup (IF c.raised # "" \/ Same(c.got.pairs, want.pairs) THEN {} ELSE {"a merge does not combine key by key with the later one overriding"})
    \cup (IF c.raised # "" \/ c.got.schema = want.schema THEN {} ELSE {"the schema of a merge is wrong"})
    \cup (IF c.same THEN {} ELSE {"merging modifies an operand"})
Failing(c) == IF c.kind = "merge" THEN MergeFails(c) ELSE SeenFails(c)
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
==================================================================================
