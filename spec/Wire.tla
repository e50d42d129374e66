----------------------------------- MODULE Wire ----------------------------------
(* Delivery of snapshots and polls to the service (C08): what a message carries, and with which metadata.               *)
(* Requests are made in two steps (the metadata is asked for, the request goes out) by a poller and a sender.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Fields, Providers, \* "none" supplies nothing
          MaxSnaps, MaxLives, MaxPolls, Fault
VARIABLES up, provider, cache, supplied,     \* supplied: what the provider has given out in this life
          broken,                            \* the provider does not work
          queue,                             \* snapshots to be sent
          poller, sender,                    \* "idle" | "asks" | the metadata with which a request goes out
          out, lives, snaps, polls, lost
vars == <<up, provider, cache, supplied, broken, queue, poller, sender, out, lives, snaps, polls, lost>>
Texts == {"plain", "odd", "unset"}           \* odd: text that cannot be encoded as it is
Snapshots == [Fields -> Texts]
Nothing == [x \in {"nothing"} |-> "nothing"]
Carried(t) == IF t = "odd" THEN "escaped" ELSE t
Convert(s) == IF Fault = "rejects" /\ \E f \in Fields : s[f] = "odd" THEN Nothing
              ELSE [f \in Fields |-> IF Fault = "default" /\ s[f] = "unset" THEN "plain"
                                     ELSE IF Fault = "swap" /\ Cardinality(Fields) > 1 THEN Carried(s[CHOOSE g \in Fields : g # f])
                                     ELSE Carried(s[f])]
Unknown == <<"unknown">>
Token(p, life) == <<p, life>>
Init == /\ up = FALSE /\ provider \in Providers /\ cache = Unknown /\ supplied = {} /\ broken = FALSE /\ queue = <<>>
        /\ poller = <<"idle">> /\ sender = <<"idle">> /\ out = <<>> /\ lives = 0 /\ snaps = 0 /\ polls = 0 /\ lost = FALSE
Start == /\ ~up /\ lives < MaxLives /\ up' = TRUE /\ lives' = lives + 1 /\ provider' \in Providers
         /\ cache' = (IF Fault = "stale" THEN cache ELSE Unknown) /\ supplied' = {}
         /\ UNCHANGED <<broken, queue, poller, sender, out, snaps, polls, lost>>
Stop == /\ up /\ queue = <<>> /\ poller = <<"idle">> /\ sender = <<"idle">> /\ up' = FALSE
        /\ UNCHANGED <<provider, cache, supplied, broken, queue, poller, sender, out, lives, snaps, polls, lost>>
Toggle == broken' = ~broken /\ UNCHANGED <<up, provider, cache, supplied, queue, poller, sender, out, lives, snaps, polls, lost>>
Collect == /\ up /\ snaps < MaxSnaps /\ snaps' = snaps + 1 /\ \E s \in Snapshots : queue' = Append(queue, s)
           /\ UNCHANGED <<up, provider, cache, supplied, broken, poller, sender, out, lives, polls, lost>>
\* one request asks for the metadata
Supply(ready(_)) ==
    IF cache # Unknown THEN ready(cache) /\ UNCHANGED <<cache, supplied>>
    ELSE IF broken
    THEN (IF Fault = "anyway" THEN ready(<<"none", 0>>) ELSE ready(<<"failed">>)) /\ UNCHANGED <<cache, supplied>>
    ELSE LET token == Token(provider, lives) IN cache' = token /\ supplied' = supplied \cup {token} /\ ready(token)
PollAsks == /\ up /\ poller = <<"idle">> /\ polls < MaxPolls /\ polls' = polls + 1
            /\ IF Fault = "early" /\ cache = Unknown
               THEN cache' = <<"none", 0>> /\ poller' = <<"asks">> /\ UNCHANGED supplied     \* set before the provider has answered
               ELSE LET Ready(m) == poller' = m IN Supply(Ready)
            /\ UNCHANGED <<up, provider, broken, queue, sender, out, lives, snaps, lost>>
PollAnswered == /\ poller = <<"asks">> /\ poller' = Token(provider, lives) /\ cache' = poller' /\ supplied' = supplied \cup {poller'}
                /\ UNCHANGED <<up, provider, broken, queue, sender, out, lives, snaps, polls, lost>>
PollGoes == /\ poller \notin {<<"idle">>, <<"asks">>} /\ poller' = <<"idle">>
            /\ out' = (IF poller = <<"failed">> THEN out ELSE Append(out, [k |-> "poll", m |-> poller, ok |-> poller \in supplied, carried |-> TRUE]))
            /\ UNCHANGED <<up, provider, cache, supplied, broken, queue, sender, lives, snaps, polls, lost>>
SendAsks == /\ queue # <<>> /\ sender = <<"idle">>
            /\ IF Fault = "noauth" THEN sender' = <<"none", 0>> /\ UNCHANGED <<cache, supplied>>
               ELSE LET Ready(m) == sender' = m IN Supply(Ready)
            /\ UNCHANGED <<up, provider, broken, queue, poller, out, lives, snaps, polls, lost>>
SendGoes == /\ sender # <<"idle">> /\ sender' = <<"idle">> /\ queue' = Tail(queue)
            /\ LET msg == Convert(Head(queue)) IN
               IF sender = <<"failed">> THEN UNCHANGED <<out, lost>>        \* the one loss that is allowed: there is no metadata
               ELSE IF msg = Nothing THEN lost' = TRUE /\ UNCHANGED out
               ELSE /\ out' = Append(out, [k |-> "send", m |-> sender, ok |-> sender \in supplied,
                                           carried |-> \A f \in Fields : msg[f] = Carried(Head(queue)[f])])
                    /\ UNCHANGED lost
            /\ UNCHANGED <<up, provider, cache, supplied, broken, poller, lives, snaps, polls>>
Next == Start \/ Stop \/ Toggle \/ Collect \/ PollAsks \/ PollAnswered \/ PollGoes \/ SendAsks \/ SendGoes
Spec == Init /\ [][Next]_vars
Authorised == \A i \in DOMAIN out : out[i].ok
Intact == \A i \in DOMAIN out : out[i].carried
Delivered == ~lost
==================================================================================
