------------------------------ MODULE LogTemplate ------------------------------
(* Log messages (C16): how a template is read, what every field becomes, and what is labelled with which id.           *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- rules -----------------------------------------------------------------------------------------------------------
\* A template is a sequence of parts: literal text, an escaped brace ("open", "close"), or a field. Each part stands for
\* text in the message; alts are the texts that are allowed for it (one, except for an error text).
RECURSIVE Messages(_)
Messages(parts) ==
    IF parts = <<>> THEN {"[deep] "}
    ELSE LET before == Messages(SubSeq(parts, 1, Len(parts) - 1))
             last == parts[Len(parts)] IN
         {m \o last.alts[a] : m \in before, a \in DOMAIN last.alts}
Fields(parts) == SelectSeq(parts, LAMBDA p : p.k = "field")

\* ---- the design ------------------------------------------------------------------------------------------------------
\* parts of the design: text "t", the escaped braces, a field with a value, and one that fails. The value of a field looks
\* like a field itself, it must not be read again.
CONSTANTS MaxParts, Hits, Fault
Kinds == {"lit", "open", "close", "good", "bad"}
Chars(k) == CASE k = "lit" -> <<"t">> [] k = "open" -> <<"{", "{">> [] k = "close" -> <<"}", "}">>
            [] k = "good" -> <<"{", "g", "}">> [] k = "bad" -> <<"{", "b", "}">>
Value == <<"{", "b", "}">>
Shown(k) == CASE k = "lit" -> <<"t">> [] k = "open" -> <<"{">> [] k = "close" -> <<"}">>
            [] k = "good" -> Value [] k = "bad" -> <<"E">>
RECURSIVE Flat(_)
Flat(seq) == IF seq = <<>> THEN <<>> ELSE Head(seq) \o Flat(Tail(seq))

VARIABLES parts, template, pos, text, watches, hit, logs, snaps
vars == <<parts, template, pos, text, watches, hit, logs, snaps>>
Init == /\ parts \in UNION {[1..n -> Kinds] : n \in 0..MaxParts}
        /\ template = Flat([j \in DOMAIN parts |-> Chars(parts[j])])
        /\ pos = 0 /\ text = <<>> /\ watches = <<>> /\ hit = 0 /\ logs = <<>> /\ snaps = <<>>
At(k) == IF k <= Len(template) THEN template[k] ELSE "end"
Reach == /\ pos = 0 /\ hit < Hits
         /\ hit' = hit + 1 /\ pos' = 1 /\ text' = <<>> /\ watches' = <<>>
         /\ UNCHANGED <<parts, template, logs, snaps>>
Escape == /\ pos \in 1..Len(template) /\ At(pos) \in {"{", "}"} /\ At(pos + 1) = At(pos) /\ Fault # "noescape"
          /\ text' = Append(text, At(pos)) /\ pos' = pos + 2
          /\ UNCHANGED <<parts, template, watches, hit, logs, snaps>>
Field == /\ pos \in 1..Len(template) /\ At(pos) = "{" /\ At(pos + 1) # "{"
         /\ LET good == At(pos + 1) = "g" IN
            /\ watches' = Append(watches, IF good THEN "good" ELSE "bad")
            /\ IF ~good /\ Fault = "stops" THEN pos' = Len(template) + 1 ELSE pos' = pos + 3
            /\ text' = IF good THEN text \o Value ELSE IF Fault = "blank" THEN text ELSE Append(text, "E")
            /\ template' = IF good /\ Fault = "rescan" THEN SubSeq(template, 1, pos + 2) \o Value \o SubSeq(template, pos + 3, Len(template))
                           ELSE template
         /\ UNCHANGED <<parts, hit, logs, snaps>>
Text == /\ pos \in 1..Len(template)
        /\ IF At(pos) \in {"{", "}"} THEN Fault = "noescape" /\ At(pos + 1) = At(pos) ELSE TRUE
        /\ text' = Append(text, At(pos)) /\ pos' = pos + 1
        /\ UNCHANGED <<parts, template, watches, hit, logs, snaps>>
Stray == /\ pos \in 1..Len(template) /\ At(pos) = "}" /\ At(pos + 1) # "}"
         /\ text' = Append(text, At(pos)) /\ pos' = pos + 1
         /\ UNCHANGED <<parts, template, watches, hit, logs, snaps>>
Emit == /\ pos > Len(template) /\ pos > 0
        /\ logs' = Append(logs, [text |-> text, tp |-> IF Fault = "swapped" THEN <<"ctx", hit>> ELSE <<"tp", 0>>,
                                 ctx |-> IF Fault = "swapped" THEN <<"tp", 0>> ELSE <<"ctx", hit>>])
        /\ snaps' = Append(snaps, [text |-> text, watches |-> IF Fault = "lost" THEN <<>> ELSE watches])
        /\ pos' = 0
        /\ UNCHANGED <<parts, template, text, watches, hit>>
Next == Reach \/ Escape \/ Field \/ Text \/ Stray \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Wanted == Flat([j \in DOMAIN parts |-> Shown(parts[j])])
IsField(k) == k \in {"good", "bad"}
Rendered == \A j \in 1..Len(logs) : logs[j].text = Wanted
Labelled == \A j \in 1..Len(logs) : logs[j].tp = <<"tp", 0>> /\ logs[j].ctx = <<"ctx", j>>
OnSnapshot == \A j \in 1..Len(snaps) : snaps[j].text = logs[j].text /\ snaps[j].watches = SelectSeq(parts, IsField)
OnePerHit == pos = 0 => Len(logs) = hit
Finishes == <>(hit = Hits /\ pos = 0)
=============================================================================
