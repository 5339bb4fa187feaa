------------------------------ MODULE Gossip_Gen ------------------------------
(* What peers give a node and what is pushed, one after another or at once. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Peers, Mute, Msgs, Depth, Burst, Flips
VARIABLES sizes, h
R(S) == {RandomElement(S)}
Size == {0, 1, 31, 32, 100, 5000, 65500, 65535, 65536, 70000, 200000}
Give(x) == [ev |-> "give", p |-> RandomElement(1..Peers), m |-> RandomElement(1..Msgs)]
Push(x) == [ev |-> "push", m |-> RandomElement(1..Msgs)]
One(x) == IF RandomElement(1..4) = 1 THEN Push(x) ELSE Give(x)
\* Many of the same.
Same(m) == [ev |-> "burst", of |-> [i \in 1..Burst |-> IF RandomElement(1..5) = 1 THEN [ev |-> "push", m |-> m] ELSE [ev |-> "give", p |-> RandomElement(1..Peers), m |-> m]]]
Mixed(x) == [ev |-> "burst", of |-> [i \in 1..Burst |-> One(x)]]
\* A peer goes away or is back.
Flip(x) == [ev |-> "flip", p |-> RandomElement(1..(Peers + Mute))]
Init == sizes = <<>> /\ h = <<>>
Next == IF Len(sizes) < Msgs THEN h' = h /\ \E s \in R(Size) : sizes' = Append(sizes, s)
        ELSE /\ Len(h) < Depth /\ sizes' = sizes
             /\ \E w \in R(1..4), f \in R(1..Flips), m \in R(1..Msgs) : h' = Append(h, IF f > 6 THEN Flip(h) ELSE IF Burst = 0 THEN One(h) ELSE IF w = 1 THEN One(h) ELSE IF w = 2 THEN Mixed(h) ELSE Same(m))
Spec == Init /\ [][Next]_<<sizes, h>>
Emit == Len(h) = Depth => PrintT("PLAN " \o ToJson([peers |-> Peers, mute |-> Mute, sizes |-> sizes, steps |-> h]))
=============================================================================
