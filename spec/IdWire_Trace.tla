----------------------------- MODULE IdWire_Trace -----------------------------
(* Checks what became of identities that were encoded, decoded and sent. *)
EXTENDS IdWire, TraceBatch
VARIABLE n
KL == 32
\* How an identity was seen: [key, host, port, ahost, aport], where the last two are those of its address.
Seen(x, s) == /\ s.key = x.key /\ To16(s.host) = To16(x.host) /\ s.port = x.port
              /\ s.ahost = AddressHost(x) /\ s.aport = x.port
TInit == BatchInit /\ n = 0
TNext ==
    /\ n' = n + 1
    /\ \/ IsEvent("id") /\ (Step.b = Encode(Step.x) /\ Seen(Step.x, Step.made) /\ ~Step.err /\ Seen(Step.x, Step.back) /\ Step.addr = Step.backaddr) = TRUE
       \* For each length of a shortened encoding, whether decoding it failed.
       \/ IsEvent("short") /\ (\A i \in 1..Len(Step.errs) : Step.errs[i]) = TRUE
       \/ IsEvent("list") /\ (/\ Step.b = EncodeList(Step.xs) /\ ~Step.err /\ Len(Step.back) = Len(Step.xs)
                              /\ \A i \in 1..Len(Step.xs) : Seen(Step.xs[i], Step.back[i])) = TRUE
       \* Any bytes: decoding fails or not as it has to.
       \/ IsEvent("bytes") /\ (LET d == Decode(KL, Step.b) IN
              IF d.err THEN Step.err ELSE ~Step.err /\ Seen([key |-> d.key, host |-> d.host, port |-> d.port], Step.back)) = TRUE
       \/ IsEvent("listbytes") /\ (LET d == DecodeList(KL, Step.b) IN
              IF d.err THEN Step.err
              ELSE ~Step.err /\ Len(Step.back) = Len(d.list)
                   /\ \A i \in 1..Len(d.list) : Seen([key |-> d.list[i].key, host |-> d.list[i].host, port |-> d.list[i].port], Step.back[i])) = TRUE
       \* A node connects to a peer: what it says it is, and what it takes the peer for.
       \/ IsEvent("met") /\ (Step.b = Encode(Step.x) /\ Seen(Step.y, Step.seen)) = TRUE
       \* What a node with these entries in its table, beside others, answers.
       \/ IsEvent("answer") /\ (LET d == DecodeList(KL, Step.b) IN
              ~d.err /\ Len(Step.b) = 1 + Len(d.list) * Size(KL)
              /\ \A i \in 1..Len(Step.xs) : \E j \in 1..Len(d.list) : d.list[j] = Canonical(Step.xs[i])) = TRUE
TSpec == TInit /\ [][TNext]_<<n, tr, l>>
=============================================================================
