-------------------------------- MODULE Idle_Gen ------------------------------
(* What goes on, quarter by quarter of the timeout. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Ts, Stages
VARIABLES h, T, stage, role
Init == h = <<>> /\ T \in Ts /\ stage \in Stages /\ role \in {"dial", "accept"}
Quiet == Len(h) >= 3 /\ \A i \in Len(h) - 2..Len(h) : h[i] \in {"none", "part"}
Next == /\ Len(h) < Depth /\ UNCHANGED <<T, stage, role>>
        /\ IF T > 0 /\ Quiet THEN h' = Append(h, "none")
           ELSE \E x \in {"recv", "send", "none", "part", "both"}, w \in 1..2 : (x \in {"part", "both"} => w = 1) /\ h' = Append(h, x)
Spec == Init /\ [][Next]_<<h, T, stage, role>>
Emit == Len(h) = Depth => PrintT("PLAN " \o ToJson([T |-> T, stage |-> stage, role |-> role, steps |-> h]))
=============================================================================
