------------------------------ MODULE Lookup_Gen ------------------------------
(* Networks of peers and lookups in them.  Numbers above N are peers that   *)
(* nobody has ever seen, 0 is the node itself and -1 the target.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Fakes, Finds, DeadOf10, AtOnce
VARIABLES shape, peers, table, finds
R(S) == {RandomElement(S)}
Bad == {"silent", "pong", "junk", "drop", "stall", "refuse", "late", "short"}
Some(n, S) == {RandomElement(S) : i \in 1..n}
\* Whom peer i tells of.
Knows(i) == CASE shape = "chain" -> {i + 1}
              [] shape = "cycle" -> {(i % N) + 1, ((i + 1) % N) + 1}
              [] shape = "sparse" -> Some(2, 1..N)
              [] shape = "dense" -> Some(12, 1..N)
              [] shape = "star" -> IF i = 1 THEN 2..N ELSE {1}
              [] shape = "tree" -> {2 * i, 2 * i + 1} \cap 1..N
              [] shape = "flood" -> Some(3, 1..N) \cup Some(40, N..N + Fakes)
Odd(i) == {x \in Some(1, -1..N + Fakes) : x > N \/ x < 1}
Peer == \E d \in R(1..10), m \in R(Bad), slow \in R({0, 0, 0, 1}), dup \in R({TRUE, FALSE}) :
    peers' = Append(peers, [mode |-> IF d <= DeadOf10 THEN m ELSE IF slow = 1 THEN "slow" ELSE "ok",
                            knows |-> Knows(Len(peers) + 1) \cup Odd(peers), dup |-> dup])
Start == CASE shape \in {"chain", "star", "tree"} -> {1} [] OTHER -> Some(RandomElement({1, 2, 4, N}), 1..N)
F(h) == [target |-> RandomElement({"random", "self", "peer", "peer", "near"}), p |-> RandomElement(1..N), max |-> RandomElement({1, 2, 3, 16, 16, 40}),
      lookups |-> RandomElement({1, 2, 3, 3, 5}), requests |-> RandomElement({1, 2, 8})]
Init == shape = "none" /\ peers = <<>> /\ table = {} /\ finds = <<>>
Next == IF shape = "none" THEN (\E s \in R({"chain", "cycle", "sparse", "dense", "star", "tree", "flood"}) : shape' = s) /\ UNCHANGED <<peers, table, finds>>
        ELSE IF Len(peers) < N THEN Peer /\ UNCHANGED <<shape, table, finds>>
        ELSE IF table = {} THEN (\E s \in R({Start}) : table' = s) /\ UNCHANGED <<shape, peers, finds>>
        ELSE Len(finds) < Finds /\ (\E f \in R({F(finds)}) : finds' = Append(finds, f)) /\ UNCHANGED <<shape, peers, table>>
Spec == Init /\ [][Next]_<<shape, peers, table, finds>>
Emit == Len(finds) = Finds => PrintT("PLAN " \o ToJson([peers |-> peers, table |-> table, finds |-> finds, fakes |-> Fakes, atonce |-> AtOnce, timeout |-> 1000]))
=============================================================================
