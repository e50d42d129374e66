----------------------------- MODULE CollectorGen -----------------------------
(* All small object graphs (kinds, kids, the locals in order, the watched object): the harness builds them.           *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS N, MaxKids, MaxRoots, Kinds
VARIABLE g
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == g \in [kinds : [1..N -> Kinds], kids : [1..N -> SeqsUpTo(1..N, MaxKids)], roots : SeqsUpTo(1..N, MaxRoots) \ {<<>>},
               watch : 1..N]
Next == UNCHANGED g
Spec == Init /\ [][Next]_g
Emit == PrintT("GRAPH" \o ToJson(g))
=============================================================================
