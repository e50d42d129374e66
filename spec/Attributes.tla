------------------------------- MODULE Attributes --------------------------------
(* The bounded attribute store (C18): a design, checked for every sequence of operations.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Keys, Values, Bad,   \* values that are invalid
          Caps,                \* capacities, -1: none
          MaxOps, Fault
VARIABLES cap, frozen, ent,    \* entries in the order of their age: [k, v]
          dropped, ops, born,  \* when each key was (last) stored
          lost,                \* keys that were evicted, with the keys that stayed
          stored, removed, act
vars == <<cap, frozen, ent, dropped, ops, born, lost, stored, removed, act>>
Has(k) == \E i \in DOMAIN ent : ent[i].k = k
Without(seq, k) == SelectSeq(seq, LAMBDA e : e.k # k)
Init == /\ cap \in Caps /\ frozen = FALSE /\ ent = <<>> /\ dropped = 0 /\ ops = 0 /\ born = [k \in Keys |-> 0]
        /\ lost = <<>> /\ stored = 0 /\ removed = 0 /\ act = "none"
Evicts(k) == cap > 0 /\ ~Has(k) /\ Len(ent) = cap + (IF Fault = "offbyone" THEN 1 ELSE 0)
Victim == IF Fault = "newest" THEN ent[Len(ent)].k ELSE ent[1].k
Put(k, v) ==
    IF cap = 0 THEN dropped' = dropped + 1 /\ UNCHANGED <<ent, born, lost, stored>>
    ELSE IF v \in Bad
    THEN /\ ent' = (IF Fault = "badremoves" THEN Without(ent, k) ELSE ent) /\ UNCHANGED <<dropped, born, lost, stored>>
    ELSE /\ LET kept == IF Evicts(k) THEN Without(ent, Victim) ELSE Without(ent, k) IN
            /\ ent' = IF Fault = "keepsplace" /\ Has(k) THEN [i \in DOMAIN ent |-> IF ent[i].k = k THEN [k |-> k, v |-> v] ELSE ent[i]]
                      ELSE Append(kept, [k |-> k, v |-> v])
            /\ dropped' = dropped + (IF (Evicts(k) /\ Fault # "nocount") \/ (Fault = "countall" /\ Has(k)) THEN 1 ELSE 0)
            /\ lost' = IF Evicts(k) THEN Append(lost, [at |-> born[Victim], others |-> {born[kept[i].k] : i \in DOMAIN kept}]) ELSE lost
         /\ born' = [born EXCEPT ![k] = ops + 1] /\ stored' = stored + (IF Has(k) THEN 0 ELSE 1)
Set == \E k \in Keys, v \in Values \cup Bad :
       /\ IF frozen THEN UNCHANGED <<ent, dropped, born, lost, stored>> ELSE Put(k, v)
       /\ act' = "set" /\ UNCHANGED removed
Delete == \E k \in Keys :
          /\ IF Has(k) /\ (~frozen \/ Fault = "thaws") THEN ent' = Without(ent, k) /\ removed' = removed + 1 ELSE UNCHANGED <<ent, removed>>
          /\ act' = "delete" /\ UNCHANGED <<dropped, born, lost, stored>>
Freeze == ~frozen /\ frozen' = TRUE /\ act' = "freeze" /\ UNCHANGED <<ent, dropped, born, lost, stored, removed>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED cap /\ ((Set /\ UNCHANGED frozen) \/ (Delete /\ UNCHANGED frozen) \/ Freeze)
Spec == Init /\ [][Next]_vars
Bounded == cap >= 0 => Len(ent) <= cap
Once == \A i, j \in DOMAIN ent : ent[i].k = ent[j].k => i = j
Valid == \A i \in DOMAIN ent : ent[i].v \in Values
OldestFirst == \A i \in DOMAIN lost : \A other \in lost[i].others : lost[i].at < other
ByAge == \A i, j \in DOMAIN ent : i < j => born[ent[i].k] < born[ent[j].k]
\* everything that was stored is there, or was deleted, or is counted
Counted == cap # 0 => stored = Len(ent) + removed + dropped
FrozenStays == [][frozen => UNCHANGED <<ent, dropped>>]_vars
Kept == [][\A i \in DOMAIN ent : (\E j \in DOMAIN ent' : ent'[j].k = ent[i].k) \/ act' = "delete" \/ Len(lost') > Len(lost)]_vars
==================================================================================
