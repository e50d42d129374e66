---------------------------- MODULE SnapshotJudge ----------------------------
(* A delivered snapshot against an independent reading of the paused program (C02, C05, C06, C07).                    *)
(* Clauses are marked: F fidelity, B bounds, K references and identity, T totality.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
C == INSTANCE Collector WITH N <- 0, MaxKids <- 0, MaxRoots <- 0, VarLimits <- {}, CollLimits <- {}, DepthLimits <- {},
     Fault <- "none", kids <- <<>>, roots <- <<>>, watch <- 0, maxVars <- 0, maxColl <- 0, maxDepth <- 0, queue <- <<>>,
     id <- <<>>, table <- <<>>, frame <- <<>>, result <- 0, depthOf <- <<>>, phase <- ""
A == INSTANCE AppFrame
Cases == ndJsonDeserialize(IOEnv.CASES)
Elem(s) == {s[j] : j \in 1..Len(s)}

\* c.nodes[n] = [type, texts, long, kids, cap, free]: real type; acceptable texts (none: any); is the text longer than the
\* limit; kids = sequence of [names, raw, n]; cap: the number of kids is limited; free: the kids are not prescribed
\* c.frames[f] = [file, func, line, cls, collect, locals]; c.watches[w] = [expr, source, n, err]
\* c.got = [frames, table, watches, tp..]: what the snapshot says; a reference is an id of the table (a string)

Has(c, id) == id \in DOMAIN c.got.table
AllKids(c, n) == LET node == c.nodes[n] IN
    IF node.free THEN <<>> ELSE IF node.cap THEN C!Cut(node.kids, c.limits.coll) ELSE node.kids
KidNodes(c, n) == [j \in 1..Len(AllKids(c, n)) |-> AllKids(c, n)[j].n]

\* the references on frames and watches, paired with what they should refer to
FramePairs(c, f) == {<<c.frames[f].locals[j].n, c.got.frames[f].vars[j].id>> :
                        j \in 1..(IF Len(c.frames[f].locals) < Len(c.got.frames[f].vars)
                                  THEN Len(c.frames[f].locals) ELSE Len(c.got.frames[f].vars))}
WatchPairs(c, w) == IF c.watches[w].err \/ c.got.watches[w].id = "" THEN {} ELSE {<<c.watches[w].n, c.got.watches[w].id>>}
Frames(c) == 1..(IF Len(c.frames) < Len(c.got.frames) THEN Len(c.frames) ELSE Len(c.got.frames))
Watches(c) == 1..(IF Len(c.watches) < Len(c.got.watches) THEN Len(c.watches) ELSE Len(c.got.watches))
Roots(c) == (UNION {FramePairs(c, f) : f \in Frames(c)}) \cup (UNION {WatchPairs(c, w) : w \in Watches(c)})

PairKids(c, p) ==
    IF ~Has(c, p[2]) \/ c.nodes[p[1]].free THEN {}
    ELSE LET got == c.got.table[p[2]].kids  want == AllKids(c, p[1]) IN
         {<<want[j].n, got[j].id>> : j \in 1..(IF Len(got) < Len(want) THEN Len(got) ELSE Len(want))}
RECURSIVE Closure(_, _, _)
Closure(c, new, seen) == IF new = {} THEN seen
    ELSE LET all == seen \cup new IN Closure(c, (UNION {PairKids(c, p) : p \in new}) \ all, all)
\* what every reference refers to: set of <<node, id>>
Pairs(c) == Closure(c, Roots(c), {})

\* ---- the searches: each frame that collects, then each watch; depth of locals 1, of a watched value 0 ------------------
Searches(c) ==
    LET fs == SelectSeq([f \in 1..Len(c.frames) |-> [roots |-> {l.n : l \in Elem(c.frames[f].locals)}, depth |-> 1,
                                                     use |-> c.frames[f].collect]], LAMBDA s : s.use)
        ws == SelectSeq([w \in 1..Len(c.watches) |-> [roots |-> {c.watches[w].n}, depth |-> 0, use |-> ~c.watches[w].err]],
                        LAMBDA s : s.use)
    IN fs \o ws
\* state of a walk over the searches: known nodes, was the budget exhausted, clauses, nodes that were expanded
RECURSIVE Walk(_, _, _, _)
Walk(c, searches, recorded, st) ==
    IF searches = <<>> THEN st
    ELSE LET s == searches[1]
             levels == C!LevelsFrom(s.roots \ st.known, s.depth, c.limits.depth, st.known, [n \in 1..Len(c.nodes) |-> KidNodes(c, n)])
             expect == UNION Elem(levels)
             \* what is not prescribed can use budget as well: then only a table that is clearly below the limit tells
             fits == \/ ~c.anyfree /\ ~st.exhausted /\ Cardinality(st.known \cup expect) + c.dicts <= c.limits.vars
                     \/ Cardinality(DOMAIN c.got.table) + c.dicts + 2 < c.limits.vars
             actual == expect \cap recorded
             missing == expect \ recorded
             unordered == \E a, b \in 1..Len(levels) : a < b /\ levels[b] \cap actual # {} /\ levels[a] \cap missing # {}
             inner == UNION {levels[j] : j \in {h \in 1..Len(levels) : s.depth + h < c.limits.depth}} IN
         Walk(c, Tail(searches), recorded,
              [known |-> st.known \cup actual,
               exhausted |-> st.exhausted \/ missing # {},
               full |-> IF fits THEN st.full \cup (inner \cap actual) ELSE st.full,
               flat |-> st.flat \cup (expect \ inner),
               fails |-> st.fails
                 \cup (IF fits /\ missing # {} THEN {"F|a variable within the limits is missing"} ELSE {})
                 \cup (IF unordered THEN {"B|something deeper is recorded while something shallower is missing"} ELSE {})])

Renders(c, n, e) ==
    LET node == c.nodes[n]
        cutTo == c.limits.str
        Shown(t) == IF node.ascii THEN C!Cut(t, cutTo) ELSE t IN
    (IF node.type # "" /\ e.type # node.type THEN {"F|the type of a variable is not that of the object"} ELSE {})
    \cup (IF node.texts # <<>> /\ \A t \in Elem(node.texts) : e.value # Shown(t)
          THEN {"F|the value of a variable is not that of the object"} ELSE {})
    \cup (IF node.texts # <<>> /\ node.ascii /\ \A t \in Elem(node.texts) : e.trunc # (Len(t) > cutTo)
          THEN {"B|a value is marked as truncated when it is not, or not when it is"} ELSE {})
    \cup (IF node.texts # <<>> /\ ~node.ascii /\ e.trunc # node.long
          THEN {"B|a value is marked as truncated when it is not, or not when it is"} ELSE {})

NameFails(want, got) ==
    (IF want.names # <<>> /\ got.name \notin Elem(want.names) THEN {"F|the name of a variable is wrong"} ELSE {})
    \cup (IF want.names # <<>> /\ got.orig # (IF got.name = want.raw THEN "" ELSE want.raw) THEN {"F|the original name of a variable is wrong"} ELSE {})
    \cup (IF want.names # <<>> /\ Elem(got.mods) # (IF Len(got.name) > 1 /\ SubSeq(got.name, 1, 2) = "__" THEN {"private"}
                               ELSE IF Len(got.name) > 0 /\ SubSeq(got.name, 1, 1) = "_" THEN {"protected"} ELSE {})
          THEN {"F|the modifiers of a variable are wrong"} ELSE {})
ListFails(want, got, full, what) ==
    (IF full /\ Len(got) < Len(want) THEN {"F|" \o what \o " is missing"} ELSE {})
    \cup (IF Len(got) > Len(want) THEN {"F|" \o what \o " was added"} ELSE {})
    \cup UNION {NameFails(want[j], got[j]) : j \in 1..(IF Len(want) < Len(got) THEN Len(want) ELSE Len(got))}

KidFails(c, st, p) ==
    IF ~Has(c, p[2]) THEN {}
    ELSE LET node == c.nodes[p[1]]  e == c.got.table[p[2]] IN
         Renders(c, p[1], e)
         \cup (IF node.free THEN {}
               ELSE IF p[1] \in st.flat THEN IF e.kids # <<>> THEN {"B|something is nested deeper than the limit"} ELSE {}
               ELSE ListFails(AllKids(c, p[1]), e.kids, p[1] \in st.full, "a child"))
         \cup (IF node.cap /\ Len(e.kids) > c.limits.coll THEN {"B|more elements than the collection limit"} ELSE {})

FrameFails(c, f) ==
    LET want == c.frames[f]  got == c.got.frames[f] IN
    (IF got.file # want.file \/ got.func # want.func \/ got.line # want.line
     THEN {"F|a stack frame is not that of the program"} ELSE {})
    \cup (IF want.cls # "?" /\ got.cls # want.cls THEN {"F|the class of a frame is not that of self"} ELSE {})
    \cup (IF got.app # A!IsApp(want.file, c.conf.include, c.conf.exclude, c.conf.root) THEN {"F|the app frame flag is wrong"} ELSE {})
    \cup (IF got.short \notin A!ShortPaths(want.file, c.conf.include, c.conf.exclude, c.conf.root)
          THEN {"F|the short path is wrong"} ELSE {})
    \cup (IF want.collect THEN ListFails(want.locals, got.vars, FALSE, "a local variable")
          ELSE IF got.vars # <<>> THEN {"F|a frame that should not has variables"} ELSE {})
    \* a reference to something that was recorded for another frame costs nothing, so only the budget can leave one out
    \cup (IF want.collect /\ Len(got.vars) < Len(want.locals) /\ Cardinality(DOMAIN c.got.table) + c.dicts + 2 < c.limits.vars
          THEN {"F|a local variable is missing"} ELSE {})

WatchFails(c, w) ==
    LET want == c.watches[w]  got == c.got.watches[w] IN
    (IF got.expr # want.expr \/ got.source # want.source THEN {"F|the watches are not those of the tracepoint"} ELSE {})
    \cup (IF want.err /\ ~got.err THEN {"F|a watch that fails has a value"} ELSE {})
    \cup (IF ~want.err /\ got.err /\ Cardinality(DOMAIN c.got.table) + c.dicts + 2 < c.limits.vars
          THEN {"F|a watch has no value"} ELSE {})

Refs(c) == UNION ({{v.id : v \in Elem(c.got.frames[f].vars)} : f \in 1..Len(c.got.frames)}
                  \cup {{k.id : k \in Elem(c.got.table[i].kids)} : i \in DOMAIN c.got.table}
                  \cup {{c.got.watches[w].id} \ {""} : w \in 1..Len(c.got.watches)})
IdFails(c, pairs) ==
    (IF \E r \in Refs(c) : ~Has(c, r) THEN {"K|a reference does not resolve"} ELSE {})
    \cup (IF \E p, q \in pairs : p[1] = q[1] /\ p[2] # q[2] THEN {"K|one object has two ids"} ELSE {})
    \cup (IF \E p, q \in pairs : p[2] = q[2] /\ p[1] # q[1] THEN {"K|two objects share an id"} ELSE {})
    \cup (IF ~c.anyfree /\ \E i \in DOMAIN c.got.table : \A p \in pairs : p[2] # i THEN {"K|an entry of the table is not referred to"} ELSE {})

BoundFails(c) ==
    (IF Cardinality(DOMAIN c.got.table) > c.limits.vars + 1 THEN {"B|more variables than the limit"} ELSE {})
    \cup (IF \E i \in DOMAIN c.got.table : c.got.table[i].len > c.limits.str THEN {"B|a value is longer than the limit"} ELSE {})

TpFails(c) == IF c.got.tp # c.tp THEN {"F|the snapshot does not name the tracepoint that fired"} ELSE {}

Failing(c) ==
    IF ~c.delivered THEN {"T|no snapshot is delivered"}
    ELSE LET pairs == Pairs(c)
             recorded == {p[1] : p \in {q \in pairs : Has(c, q[2])}}
             st == Walk(c, Searches(c), recorded, [known |-> {}, exhausted |-> FALSE, full |-> {}, flat |-> {}, fails |-> {}]) IN
         (IF Len(c.got.frames) # Len(c.frames) THEN {"F|the number of stack frames is wrong"} ELSE {})
         \cup (IF Len(c.got.watches) # Len(c.watches) THEN {"F|the watches are not those of the tracepoint"} ELSE {})
         \cup st.fails \cup BoundFails(c) \cup IdFails(c, pairs) \cup TpFails(c)
         \cup UNION {KidFails(c, [st EXCEPT !.flat = @ \ st.full], p) : p \in pairs}
         \cup UNION {FrameFails(c, f) : f \in Frames(c)}
         \cup UNION {WatchFails(c, w) : w \in Watches(c)}
Results == [i \in 1..Len(Cases) |-> [id |-> Cases[i].id, fails |-> SetToSeq(Failing(Cases[i]))]]
ASSUME ndJsonSerialize(IOEnv.RESULTS, Results)
=============================================================================
