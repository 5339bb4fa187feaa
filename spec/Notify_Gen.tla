------------------------------ MODULE Notify_Gen ------------------------------
(* What happens around a node, to be told to its protocols. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS NConns, NProtos, Depth, Race, Hows, OverWeight
VARIABLES conns, h
Roles == {"dial", "accept"}
Init == conns = <<>> /\ h = <<>>
Do(x) == h' = Append(h, x)
Up == {c \in 1..Len(conns) : conns[c].up}
Stim ==
    \/ Len(conns) < NConns /\ \E w \in 1..4, r \in Roles : LET ok == w # 4 IN
          /\ conns' = Append(conns, [role |-> r, up |-> ok])
          /\ Do([ev |-> "open", c |-> Len(conns) + 1, role |-> r, ok |-> ok])
    \/ \E c \in Up, k \in {"msg", "ask"}, n \in {1, 2, 5} : UNCHANGED conns /\ Do([ev |-> "push", c |-> c, kind |-> k, n |-> n])
    \/ \E c \in Up, n \in {1, 3} : conns[c].role = "dial" /\ UNCHANGED conns /\ Do([ev |-> "send", c |-> c, n |-> n])
    \/ \E c \in Up : conns[c].role = "dial" /\ UNCHANGED conns /\ Do([ev |-> "req", c |-> c])
    \/ \E w \in 1..OverWeight, c \in Up, how \in Hows : conns' = [conns EXCEPT ![c].up = FALSE] /\ Do([ev |-> "over", c |-> c, how |-> how])
AtRest == IF h = <<>> THEN TRUE ELSE h[Len(h)].ev = "quiet"
Next == Len(h) < Depth /\
    \/ ~AtRest /\ UNCHANGED conns /\ Do([ev |-> "quiet"])
    \/ (AtRest \/ Race) /\ Len(h) < Depth - 1 /\ Stim
Emit == (Len(h) = Depth \/ (Len(h) > 2 /\ AtRest /\ Up = {} /\ Len(conns) = NConns)) => PrintT("PLAN " \o ToJson([conns |-> Len(conns), protos |-> NProtos, race |-> Race, steps |-> h]))
Spec == Init /\ [][Next]_<<conns, h>>
=============================================================================
