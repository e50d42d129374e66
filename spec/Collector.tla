------------------------------ MODULE Collector ------------------------------
(* Collection of variables (C02, C05, C06, C07): an object graph is read breadth first from roots (the local variables *)
(* of a frame, then a watched value), within limits.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- rules, also used on recorded snapshots ------------------------------------------------------------------------
\* kids of a node within the collection limit; kids[n] = sequence of nodes, capped[n]: is it a list/tuple/set
Cut(seq, max) == IF Len(seq) > max THEN SubSeq(seq, 1, max) ELSE seq
Elems(seq) == {seq[j] : j \in 1..Len(seq)}

RECURSIVE LevelsFrom(_, _, _, _, _)
\* sequence of sets: the nodes first reached at each depth, not going through `known` nodes; K[n]: sequence of kids
LevelsFrom(level, depth, max, known, K) ==
    IF level = {} \/ depth >= max THEN <<>>
    ELSE LET seen == known \cup level
             next == (UNION {Elems(K[n]) : n \in level}) \ seen IN
         <<level>> \o LevelsFrom(next, depth + 1, max, seen, K)

\* ---- the design ----------------------------------------------------------------------------------------------------
CONSTANTS N,            \* objects 1..N (an object without kids is a scalar)
          MaxKids, MaxRoots, VarLimits, CollLimits, DepthLimits, Fault
VARIABLES kids, roots, watch, maxVars, maxColl, maxDepth,
          queue,        \* work list: <<node, parent id (0: the frame), depth>>
          id,           \* identity cache: node -> id (0: none)
          table,        \* id -> [node, kids: sequence of ids]
          frame,        \* ids of the frame's variables
          result,       \* id of the watch (0: none)
          depthOf,      \* node -> depth at which it was recorded
          phase         \* "frame", "watch", "done"
vars == <<kids, roots, watch, maxVars, maxColl, maxDepth, queue, id, table, frame, result, depthOf, phase>>
Nodes == 1..N
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Size == Cardinality({n \in Nodes : id[n] # 0})

Init == /\ kids \in [Nodes -> SeqsUpTo(Nodes, MaxKids)]
        /\ roots \in SeqsUpTo(Nodes, MaxRoots)
        /\ watch \in Nodes
        /\ maxVars \in VarLimits /\ maxColl \in CollLimits /\ maxDepth \in DepthLimits
        /\ queue = [j \in 1..Len(roots) |-> <<roots[j], 0, 1>>]
        /\ id = [n \in Nodes |-> 0] /\ table = <<>> /\ frame = <<>> /\ result = 0
        /\ depthOf = [n \in Nodes |-> 0] /\ phase = "frame"

Attach(parent, ref) ==
    IF phase = "frame" /\ parent = 0 THEN frame' = Append(frame, ref) /\ UNCHANGED result
    ELSE IF parent = 0 THEN result' = ref /\ UNCHANGED frame
    ELSE UNCHANGED <<frame, result>>

\* one entry of the work list
Take == IF Fault = "lifo" THEN queue[Len(queue)] ELSE queue[1]
Rest == IF Fault = "lifo" THEN SubSeq(queue, 1, Len(queue) - 1) ELSE SubSeq(queue, 2, Len(queue))
WithChild(t, parent, ref) == IF parent = 0 THEN t ELSE [t EXCEPT ![parent].kids = Append(@, ref)]
Process ==
    /\ phase \in {"frame", "watch"} /\ queue # <<>>
    /\ LET e == Take  n == e[1]  parent == e[2]  d == e[3] IN
       IF Size > maxVars - (IF Fault = "budget" THEN 0 ELSE 1)
       THEN /\ queue' = <<>> /\ UNCHANGED <<id, frame, result, depthOf>>
            /\ table' = IF Fault = "dangling" THEN WithChild(table, parent, N + 1) ELSE table
       ELSE IF id[n] # 0 /\ Fault # "nocache"
       THEN /\ queue' = Rest /\ table' = WithChild(table, parent, id[n]) /\ Attach(parent, id[n])
            /\ UNCHANGED <<id, depthOf>>
       ELSE LET new == Len(table) + 1
                cut == Cut(kids[n], maxColl)
                more == IF d + (IF Fault = "depth" THEN 0 ELSE 1) < maxDepth
                        THEN [j \in 1..Len(cut) |-> <<cut[j], new, d + 1>>] ELSE <<>> IN
            /\ id' = [id EXCEPT ![n] = new] /\ depthOf' = [depthOf EXCEPT ![n] = d]
            /\ table' = Append(WithChild(table, parent, new), [node |-> n, kids |-> <<>>])
            /\ Attach(parent, new)
            /\ queue' = Rest \o more
    /\ UNCHANGED <<kids, roots, watch, maxVars, maxColl, maxDepth, phase>>
\* the frame is done: the watched value is read into the same table
Watch == /\ phase = "frame" /\ queue = <<>>
         /\ phase' = "watch"
         /\ queue' = <<<<watch, 0, 0>>>>
         /\ UNCHANGED <<kids, roots, watch, maxVars, maxColl, maxDepth, id, table, frame, result, depthOf>>
Finish == /\ phase = "watch" /\ queue = <<>> /\ phase' = "done"
          /\ UNCHANGED <<kids, roots, watch, maxVars, maxColl, maxDepth, queue, id, table, frame, result, depthOf>>
Next == Process \/ Watch \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties ----------------------------------------------------------------------------------------------------
Bounded == Len(table) <= maxVars
DepthBound == \A n \in Nodes : depthOf[n] < maxDepth
CollBound == \A r \in DOMAIN table : Len(table[r].kids) <= maxColl
Closed == (\A j \in 1..Len(frame) : frame[j] \in DOMAIN table)
          /\ (\A r \in DOMAIN table : \A j \in 1..Len(table[r].kids) : table[r].kids[j] \in DOMAIN table)
          /\ (result # 0 => result \in DOMAIN table)
OneIdPerObject == \A r, s \in DOMAIN table : table[r].node = table[s].node => r = s
\* a reference to a kid is a reference to that kid
TrueRefs == \A r \in DOMAIN table : \A j \in 1..Len(table[r].kids) :
                table[r].kids[j] \in DOMAIN table => table[table[r].kids[j]].node = kids[table[r].node][j]
K == [n \in Nodes |-> Cut(kids[n], maxColl)]
Levels == LevelsFrom(Elems(roots), 1, maxDepth, {}, K)
Recorded == {table[r].node : r \in DOMAIN table}
\* what is shallower is recorded before anything that is deeper
BreadthFirst == phase = "frame" =>
    \A a, b \in 1..Len(Levels) : a < b /\ Levels[b] \cap Recorded # {} => Levels[a] \subseteq Recorded
\* nothing is left out while there is budget
Complete == phase # "frame" /\ Cardinality(UNION Elems(Levels)) <= maxVars => UNION Elems(Levels) \subseteq Recorded
Terminates == <>(phase = "done")
=============================================================================
