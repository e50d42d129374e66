---------------------------------- MODULE Clean ----------------------------------
(* What an attribute store makes of a key and a value (C18). Text is a sequence of code points.                         *)
(* Values: [t: "none"] [t: "str", c] [t: "bytes", b] [t: "bool"|"int"|"float", r: its text] [t: "seq", i: elements]      *)
(*         [t: "bad", w: what]                                                                                            *)
EXTENDS Integers, Sequences, SequencesExt
Invalid == [t |-> "invalid"]
Cut(c, limit) == IF limit < 0 \/ Len(c) <= limit THEN c ELSE SubSeq(c, 1, limit)
\* ---- UTF-8 -------------------------------------------------------------------------------------------------------
Need(b) == CASE b < 128 -> 0 [] b \in 194..223 -> 1 [] b \in 224..239 -> 2 [] b \in 240..244 -> 3 [] OTHER -> 9
Cont(b) == b \in 128..191
Bits(b, n) == CASE n = 0 -> b [] n = 1 -> b - 192 [] n = 2 -> b - 224 [] n = 3 -> b - 240
\* [ok, need: bytes that are still missing, cp: the code point so far, low: the least it may be, out]
DecodeStep(a, b) ==
    IF ~a.ok THEN a
    ELSE IF a.need > 0
    THEN IF ~Cont(b) THEN [a EXCEPT !.ok = FALSE]
         ELSE LET cp == a.cp * 64 + (b - 128) IN
              IF a.need > 1 THEN [a EXCEPT !.need = @ - 1, !.cp = cp]
              ELSE IF cp < a.low \/ cp \in 55296..57343 \/ cp > 1114111 THEN [a EXCEPT !.ok = FALSE]
              ELSE [a EXCEPT !.need = 0, !.out = Append(@, cp)]
    ELSE LET n == Need(b) IN
         IF n = 9 THEN [a EXCEPT !.ok = FALSE]
         ELSE IF n = 0 THEN [a EXCEPT !.out = Append(@, b)]
         ELSE [a EXCEPT !.need = n, !.cp = Bits(b, n), !.low = (CASE n = 1 -> 128 [] n = 2 -> 2048 [] n = 3 -> 65536)]
Decode(bytes) == LET a == FoldLeft(DecodeStep, [ok |-> TRUE, need |-> 0, cp |-> 0, low |-> 0, out |-> <<>>], bytes) IN
                 IF a.ok /\ a.need = 0 THEN [t |-> "str", c |-> a.out] ELSE Invalid
\* ---- values ------------------------------------------------------------------------------------------------------
Scalar(v, limit) ==
    CASE v.t = "str" -> [t |-> "str", c |-> Cut(v.c, limit)]
      [] v.t = "bytes" -> (LET d == Decode(v.b) IN IF d = Invalid THEN Invalid ELSE [t |-> "str", c |-> Cut(d.c, limit)])
      [] v.t \in {"bool", "int", "float"} -> v
      [] OTHER -> Invalid
\* in a sequence: what cannot be decoded is nothing, anything that is no plain value makes the sequence invalid
Element(v, limit) == IF v.t = "none" THEN v ELSE IF v.t = "bytes" /\ Scalar(v, limit) = Invalid THEN [t |-> "none"] ELSE Scalar(v, limit)
Value(v, limit) ==
    IF v.t # "seq" THEN Scalar(v, limit)
    ELSE LET items == [i \in DOMAIN v.i |-> Element(v.i[i], limit)]
             kinds == {items[i].t : i \in DOMAIN items} \ {"none"} IN
         IF Invalid \in {items[i] : i \in DOMAIN items} \/ \E a, b \in kinds : a # b THEN Invalid
         ELSE [t |-> "seq", i |-> items]
\* keys: [s: text] for text, [s: "", w: what] for anything else
KeyOk(k) == k.s # ""
==================================================================================
