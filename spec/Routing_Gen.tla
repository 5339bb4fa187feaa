----------------------------- MODULE Routing_Gen ------------------------------
(* Peers, most in one bucket, and what makes the node hear from them.       *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Crowd, Others, Depth, DeadOf10, Together
VARIABLES peers, h
R(S) == {RandomElement(S)}
P == Crowd + Others
Bad == {"silent", "garbage", "junk", "drop", "stall", "refuse", "late"}
Peer == \E d \in R(1..10), m \in R(Bad), o \in R(1..2) :
    peers' = Append(peers, [bucket |-> IF Len(peers) < Crowd THEN 0 ELSE o, mode |-> IF d <= DeadOf10 THEN m ELSE "pong"])
\* First the bucket is filled, then newcomers are heard of.
Kind == {"ack", "connect", "msg", "req", "send", "ping", "kadping"}
One(ev, p) == [ev |-> ev, p |-> p, look |-> TRUE]
First == h' = Append(h, [ev |-> "ack", p |-> Len(h) + 1, look |-> FALSE])
Later == \E w \in R(1..10), q \in R(1..P), n \in R(1..Crowd), c \in R({1, 2}), k \in R(Kind), m \in R(Bad \ {"refuse"}) :
    LET p == IF c = 1 THEN q ELSE n IN
    IF w = 1 /\ peers[p].mode # "refuse" THEN h' = Append(h, [ev |-> "mode", p |-> p, mode |-> IF c = 1 THEN "pong" ELSE m])
    ELSE IF Together = 0 THEN h' = Append(h, One(k, p))
    ELSE h' = Append(h, [ev |-> "together", of |-> [i \in 1..Together |-> One(RandomElement(Kind), RandomElement(1..P))]])
Init == peers = <<>> /\ h = <<>>
Next == IF Len(peers) < P THEN Peer /\ h' = h
        ELSE Len(h) < 16 + Depth /\ peers' = peers /\ IF Len(h) < 16 THEN First ELSE Later
Spec == Init /\ [][Next]_<<peers, h>>
Emit == Len(h) = 16 + Depth => PrintT("PLAN " \o ToJson([peers |-> peers, steps |-> h, timeout |-> 1000]))
=============================================================================
