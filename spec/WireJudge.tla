--------------------------------- MODULE WireJudge -------------------------------
(* Messages of the real agent (C08), parsed from their bytes.                                                            *)
(* Text: [s] as it is, [pre, post]: text that cannot be encoded, with what stands before and after that, [none]: unset.  *)
(* Values: [t: "str", x: text] [t: "bool"|"int"|"float"|"big", r] [t: "seq", i] [t: "none"] [t: "bytes", r]              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
Is(x, field) == field \in DOMAIN x
Text(want, got) ==
    IF Is(want, "none") THEN Is(got, "none")
    ELSE IF Is(got, "none") THEN FALSE
    ELSE IF Is(want, "s") THEN want.s = got.s
    ELSE /\ Len(got.s) >= Len(want.pre) + Len(want.post)
         /\ SubSeq(got.s, 1, Len(want.pre)) = want.pre
         /\ SubSeq(got.s, Len(got.s) - Len(want.post) + 1, Len(got.s)) = want.post
RECURSIVE Value(_, _)
Value(want, got) ==
    CASE want.t = "str" -> got.t = "str" /\ Text(want.x, got.x)
      [] want.t = "big" -> (got.t = "str" /\ got.x = [s |-> want.r]) \/ (got.t = "float")      \* no number of a message is that large
      [] want.t = "seq" -> got.t = "seq" /\ Len(got.i) = Len(want.i) /\ \A n \in DOMAIN want.i : Value(want.i[n], got.i[n])
      [] OTHER -> got = want
\* sequences of the same length whose elements correspond
All(want, got, Same(_, _)) == Len(want) = Len(got) /\ \A i \in DOMAIN want : Same(want[i], got[i])
\* sets of pairs [k, v]
Pairs(want, got, Same(_, _)) ==
    Len(want) = Len(got)
    /\ (\A i \in DOMAIN want : \E j \in DOMAIN got : Text(want[i].k, got[j].k) /\ Same(want[i].v, got[j].v))
    /\ (\A n \in DOMAIN got : \E m \in DOMAIN want : Text(want[m].k, got[n].k) /\ Same(want[m].v, got[n].v))
VarId(want, got) == want.id = got.id /\ Text(want.name, got.name) /\ want.mods = got.mods /\ Text(want.orig, got.orig)
Field(ok, what) == IF ok THEN {} ELSE {what}
Changed(what) == "a message does not carry this unchanged: " \o what
Frame(want, got) ==
    Field(Text(want.file, got.file), Changed("file of a frame"))
    \cup Field(Text(want.short, got.short), Changed("short path of a frame"))
    \cup Field(Text(want.method, got.method), Changed("method of a frame"))
    \cup Field(want.line = got.line, Changed("line of a frame"))
    \cup Field(Text(want.class, got.class), Changed("class of a frame"))
    \cup Field(want.async = got.async /\ want.column = got.column, Changed("async or column of a frame"))
    \cup Field(Text(want.tfile, got.tfile) /\ want.tline = got.tline /\ want.tcolumn = got.tcolumn, Changed("transpiled place of a frame"))
    \cup Field(want.app = got.app, Changed("application flag of a frame"))
    \cup Field(All(want.vars, got.vars, VarId), Changed("variables of a frame"))
Variable(want, got) ==
    Field(Text(want.type, got.type), Changed("type of a variable"))
    \cup Field(Text(want.value, got.value), Changed("value of a variable"))
    \cup Field(want.hash = got.hash, Changed("hash of a variable"))
    \cup Field(want.trunc = got.trunc, Changed("truncation flag of a variable"))
    \cup Field(All(want.kids, got.kids, VarId), Changed("children of a variable"))
Watch(want, got) ==
    Field(Text(want.expr, got.expr), Changed("expression of a watch"))
    \cup Field(want.source = got.source, Changed("source of a watch"))
    \cup Field(IF want.good = <<>> THEN got.good = <<>> ELSE Len(got.good) = 1 /\ VarId(want.good[1], got.good[1]), Changed("result of a watch"))
    \cup Field(Text(want.error, got.error), Changed("error of a watch"))
Each(want, got, Differ(_, _), what) ==
    IF Len(want) # Len(got) THEN {Changed(what)} ELSE UNION {Differ(want[i], got[i]) : i \in DOMAIN want}
Message(want, got) ==
    Field(want.id = got.id, Changed("id"))
    \cup Field(Text(want.tp.id, got.tp.id) /\ Text(want.tp.path, got.tp.path) /\ want.tp.line = got.tp.line
               /\ Pairs(want.tp.args, got.tp.args, Text) /\ All(want.tp.watches, got.tp.watches, Text), Changed("tracepoint"))
    \cup Field(want.ts = got.ts, Changed("timestamp"))
    \cup Field(want.duration = got.duration \/ (want.negative /\ got.duration = "0"), Changed("duration"))
    \cup Each(want.frames, got.frames, Frame, "number of frames")
    \cup (IF {want.table[i].k : i \in DOMAIN want.table} # {got.table[i].k : i \in DOMAIN got.table} THEN {Changed("ids in the variable table")}
          ELSE Each(want.table, got.table, LAMBDA a, b : Variable(a.v, b.v), "variable table"))
    \cup Each(want.watches, got.watches, Watch, "number of watches")
    \cup Field(Pairs(want.attrs, got.attrs, Value), Changed("attributes"))
    \cup Field(Pairs(want.resource, got.resource, Value), Changed("resource"))
    \cup Field(Text(want.log, got.log), Changed("log message"))
MessageFails(c) ==
    (IF c.raised = "" THEN {} ELSE {"handing over a snapshot raises"})
    \cup (IF c.got = <<>> THEN {"a snapshot is not sent"} ELSE IF Len(c.got) > 1 THEN {"a snapshot is sent more than once"} ELSE Message(c.want, c.got[1]))
    \cup (IF \A i \in DOMAIN c.meta : c.meta[i] = c.auth THEN {} ELSE {"a snapshot goes out without the metadata that the provider supplies"})
\* ---- basic authentication ---------------------------------------------------------------------------------------------
Encode(x) == CASE x < 128 -> <<x>>
               [] x < 2048 -> <<192 + x \div 64, 128 + (x % 64)>>
               [] x < 65536 -> <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
               [] OTHER -> <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
Bytes(c) == FoldLeft(LAMBDA a, x : a \o Encode(x), <<>>, c)
Digit(n) == CASE n < 26 -> 65 + n [] n < 52 -> 97 + n - 26 [] n < 62 -> 48 + n - 52 [] n = 62 -> 43 [] n = 63 -> 47
RECURSIVE Base64(_)
Base64(b) ==
    IF b = <<>> THEN <<>>
    ELSE LET n == Len(b)
             x == b[1]
             y == IF n > 1 THEN b[2] ELSE 0
             z == IF n > 2 THEN b[3] ELSE 0 IN
         << Digit(x \div 4), Digit((x % 4) * 16 + y \div 16), IF n > 1 THEN Digit((y % 16) * 4 + z \div 64) ELSE 61, IF n > 2 THEN Digit(z % 64) ELSE 61 >>
         \o (IF n > 3 THEN Base64(SubSeq(b, 4, n)) ELSE <<>>)
Basic == <<66, 97, 115, 105, 99, 37, 50, 48>>          \* Basic%20
\* a life: [provider, user, password (code points), supplied: lists of [k, v] (v: code points), requests: [k, meta], snaps, sent, fails] *)
LifeFails(l) ==
    LET may == IF l.provider = "basic" THEN {<<[k |-> "authorization", v |-> Basic \o Base64(Bytes(l.user \o <<58>> \o l.password))]>>}
               ELSE IF l.provider \in {"none", "empty", "half"} THEN {<<>>}
               ELSE {l.supplied[i] : i \in DOMAIN l.supplied} IN
    {"a " \o l.requests[i].k \o " goes out without the metadata that the provider supplies (" \o l.provider \o ")" :
        i \in {i \in DOMAIN l.requests : l.requests[i].meta \notin may}}
    \cup (IF ~l.fails /\ l.sent # l.snaps THEN {"a snapshot is not sent although the provider works"} ELSE {})
    \cup (IF ~l.fails /\ l.polls < l.asked THEN {"a poll is not sent although the provider works"} ELSE {})
Failing(c) == IF c.kind = "lives" THEN UNION {LifeFails(c.lives[i]) : i \in DOMAIN c.lives} ELSE MessageFails(c)
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
==================================================================================
