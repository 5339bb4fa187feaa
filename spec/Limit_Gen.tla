------------------------------- MODULE Limit_Gen ------------------------------
(* Limits, and frames around them. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES h, lim
Lims == {0, 1, 95, 96, 141, 142, 143, 150, 200, 255, 256, 257, 1000, 1023, 4095, 4096, 4097, 65535, 65536, 65537, 1048576}
Roles == {"dial", "accept", "node"}
Rel == {-1, 0, 1, 2, 100}
Abs == {0, 1, 35, 36, 44, 100, 200, 5000, 70000}
Init == h = <<>> /\ lim \in Lims
Next == /\ Len(h) < Depth
        /\ \/ \E c \in 1..3, r \in Roles : (Len(h) < 2 \/ Len(h) = 6) /\ h' = Append(h, [ev |-> "connect", c |-> IF Len(h) = 6 THEN 3 ELSE Len(h) + 1, role |-> r])
           \/ \E w \in 1..2, c \in 1..3, d \in Rel : Len(h) > 1 /\ h' = Append(h, [ev |-> "frame", c |-> c, rel |-> d, whole |-> TRUE])
           \/ \E c \in 1..3, n \in Abs : Len(h) > 1 /\ h' = Append(h, [ev |-> "frame", c |-> c, abs |-> n, whole |-> TRUE])
           \/ \E c \in 1..3, d \in {1, 2, 100, 100000} : Len(h) > 1 /\ h' = Append(h, [ev |-> "frame", c |-> c, rel |-> d, whole |-> FALSE])
           \/ \E c \in 1..3, x \in {"7fffffff", "80000000", "fffffffb", "fffffffc", "ffffffff"} : Len(h) > 1 /\ h' = Append(h, [ev |-> "frame", c |-> c, hex |-> x, whole |-> FALSE])
        /\ UNCHANGED lim
Spec == Init /\ [][Next]_<<h, lim>>
Emit == Len(h) = Depth => PrintT("PLAN " \o ToJson([lim |-> lim, steps |-> h]))
=============================================================================
