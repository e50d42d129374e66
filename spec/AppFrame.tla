------------------------------- MODULE AppFrame -------------------------------
(* Which frames are frames of the application, and what their short path is (C02, C19).                              *)
EXTENDS Integers, Sequences
Elements(seq) == {seq[j] : j \in 1..Len(seq)}
Under(file, prefix) == Len(prefix) > 0 /\ Len(file) >= Len(prefix) /\ SubSeq(file, 1, Len(prefix)) = prefix
Without(file, prefix) == SubSeq(file, Len(prefix) + 1, Len(file))
\* exclusion wins, then inclusion, then the application root
IsApp(file, include, exclude, root) ==
    /\ \A p \in Elements(exclude) : ~Under(file, p)
    /\ \/ \E p \in Elements(include) : Under(file, p)
       \/ Under(file, root)
\* any prefix of the class that decides can be the one that is removed
ShortPaths(file, include, exclude, root) ==
    LET ex == {p \in Elements(exclude) : Under(file, p)}
        inc == {p \in Elements(include) : Under(file, p)} IN
    IF ex # {} THEN {Without(file, p) : p \in ex}
    ELSE IF inc # {} THEN {Without(file, p) : p \in inc}
    ELSE IF Under(file, root) THEN {Without(file, root)}
    ELSE {file}
=============================================================================
