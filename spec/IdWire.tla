--------------------------------- MODULE IdWire -------------------------------
(***************************************************************************)
(* Identities and lists of them as bytes.  An identity is                  *)
(* [key, host, port]: a host is 4 or 16 bytes, a key KL bytes.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Zeros(n) == [i \in 1..n |-> 0]
Mapped == Zeros(10) \o <<255, 255>>
\* An IPv4 address is the same address in both representations.
To16(h) == IF Len(h) = 4 THEN Mapped \o h ELSE h
Encode(x) == x.key \o To16(x.host) \o <<x.port \div 256, x.port % 256>>
Size(KL) == KL + 18
Err == [err |-> TRUE]
Decode(KL, b) ==
    IF Len(b) < Size(KL) THEN Err
    ELSE [err |-> FALSE, key |-> SubSeq(b, 1, KL), host |-> SubSeq(b, KL + 1, KL + 16), port |-> b[KL + 17] * 256 + b[KL + 18]]

\* The host as it appears in an address: hosts that are this machine, or none, are left out.
Is4(h) == SubSeq(h, 1, 12) = Mapped
ThisOrNone(h) == \/ Is4(h) /\ (h[13] = 127 \/ SubSeq(h, 13, 16) = Zeros(4))
                 \/ h = Zeros(16) \/ h = Zeros(15) \o <<1>>
AddressHost(x) == IF ThisOrNone(To16(x.host)) THEN <<>> ELSE To16(x.host)

RECURSIVE Concat(_)
Concat(xs) == IF xs = <<>> THEN <<>> ELSE Encode(Head(xs)) \o Concat(Tail(xs))
EncodeList(xs) == <<Len(xs)>> \o Concat(xs)
DecodeList(KL, b) ==
    IF b = <<>> THEN Err
    ELSE IF Len(b) - 1 < b[1] * Size(KL) THEN Err
    ELSE [err |-> FALSE, list |-> [i \in 1..b[1] |-> Decode(KL, SubSeq(b, 2 + (i - 1) * Size(KL), 1 + i * Size(KL)))]]
Canonical(x) == [err |-> FALSE, key |-> x.key, host |-> To16(x.host), port |-> x.port]
=============================================================================
