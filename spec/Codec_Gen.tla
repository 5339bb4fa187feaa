------------------------------ MODULE Codec_Gen -------------------------------
(* What is asked of registries, by one or by several threads.               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Threads, PerThread, Same, NTypes
VARIABLES h, th
T == {[k |-> k, n |-> n] : k \in {"s", "p", "l"}, n \in 1..NTypes}
V == {<<>>, <<0>>, <<1, 2, 3>>, <<255, 1>>, <<7, 255>>}
B == {<<>>, <<0>>, <<0, 0>>, <<255, 255>>, <<255, 255, 1>>}
\* With Same, all nodes get the same registrations.
Reg(x, t, d) == [ev |-> "register", x |-> x, t |-> t, dec |-> d]
Op == \/ \E w \in 1..3, x \in 1..2, t \in T : h' = Append(h, Reg(x, t, t))
      \/ \E x \in 1..2, t, d \in T \cup {[k |-> "odd", n |-> i] : i \in 1..4} : t \in T /\ h' = Append(h, Reg(x, t, d))
      \/ \E w \in 1..2, x \in 1..2, t \in T, v \in V : h' = Append(h, [ev |-> "encode", x |-> x, t |-> t, v |-> v])
      \/ \E x \in 1..2, b \in B : h' = Append(h, [ev |-> "decode", x |-> x, b |-> b])
      \/ \E w \in 1..2, x \in 1..2, o \in 0..5, v \in V : h' = Append(h, [ev |-> "decode", x |-> x, b |-> <<0, o>> \o v])
      \* Takes effect at several moments, so it is for one thread only.
      \/ Threads = 1 /\ \E x \in 1..2, t \in T, v \in V : h' = Append(h, [ev |-> "ask", x |-> x, y |-> 3 - x, t |-> t, v |-> v])
Init == h = <<>> /\ th = <<>>
Next == /\ Len(th) < Threads
        /\ IF Len(h) < PerThread THEN Op /\ UNCHANGED th ELSE th' = Append(th, h) /\ h' = <<>>
Spec == Init /\ [][Next]_<<h, th>>
Emit == Len(th) = Threads => PrintT("PLAN " \o ToJson([threads |-> th, same |-> Same]))
=============================================================================
