------------------------------ MODULE ResourceMerge ------------------------------
(* The resource of the client (C18): sources merged in order, later ones override key by key.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Keys, Vals, Schemas, MaxPlugins, Fault
VARIABLES sources,   \* what each source says, in order: built-in, environment, code, plugins ..
          next,      \* the source that is merged next
          res
vars == <<sources, next, res>>
None == "none"
Maps == [Keys -> Vals \cup {None}]
Source == [attrs : Maps, schema : Schemas]
Name == "service"
Sdk == "sdk"
Merge(a, b) ==
    IF a.schema # "" /\ b.schema # "" /\ a.schema # b.schema THEN a
    ELSE [attrs |-> [k \in Keys |-> IF Fault = "first" THEN (IF a.attrs[k] # None THEN a.attrs[k] ELSE b.attrs[k])
                                    ELSE IF Fault = "replace" THEN b.attrs[k]
                                    ELSE IF b.attrs[k] # None THEN b.attrs[k] ELSE a.attrs[k]],
          schema |-> IF a.schema # "" THEN a.schema ELSE b.schema]
BuiltIn == [attrs |-> [k \in Keys |-> IF k = Sdk THEN "deep" ELSE None], schema |-> ""]
Init == /\ \E n \in 0..MaxPlugins : sources \in [1..(2 + n) -> Source]
        /\ sources[1].schema = ""
        /\ next = 1 /\ res = BuiltIn
Fallback(r) == IF r.attrs[Name] = None /\ Fault # "noname" THEN [r EXCEPT !.attrs[Name] = "unknown"] ELSE r
Step == /\ next <= Len(sources) /\ next' = next + 1
        /\ res' = IF Fault = "lastfirst" /\ next = 2 THEN Fallback(Merge(sources[2], res))
                  ELSE LET m == Merge(res, sources[next]) IN IF next = 2 THEN Fallback(m) ELSE m
        /\ sources' = IF Fault = "operand" THEN [sources EXCEPT ![next].attrs = res'.attrs] ELSE sources
Spec == Init /\ [][Step]_vars
Applied(i) == \* the sources that count: those whose schema does not contradict the one there is
    LET schema(j) == FoldLeft(LAMBDA s, src : IF s = "" THEN src.schema ELSE s, "", SubSeq(sources, 1, j - 1)) IN
    schema(i) = "" \/ sources[i].schema = "" \/ schema(i) = sources[i].schema
Complete == next > 2 => res.attrs[Sdk] # None /\ res.attrs[Name] # None
Precedence == next > Len(sources) => \A k \in Keys : \A i \in DOMAIN sources :
    (Applied(i) /\ sources[i].attrs[k] # None /\ ~\E j \in i + 1..Len(sources) : Applied(j) /\ sources[j].attrs[k] # None)
    => res.attrs[k] = sources[i].attrs[k]
Pure == [][UNCHANGED sources]_vars
==================================================================================
