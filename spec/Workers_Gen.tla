------------------------------ MODULE Workers_Gen -----------------------------
(* Messages for a node to handle. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NConns, Ws, Hs, Depth, Race, ErrWeight
VARIABLES size, alive, held, nmsg, h
Init == size \in [workers : Ws, handlers : Hs] /\ alive = 1..NConns /\ held = {} /\ nmsg = 0 /\ h = <<>>
Do(x) == h' = Append(h, x)
Msg(at, holds) ==
    \E c \in alive :
        /\ nmsg' = nmsg + 1
        /\ held' = held \cup {<<nmsg + 1, k>> : k \in {k \in holds : at = 0 \/ k <= at}}
        /\ alive' = IF at # 0 /\ holds = {} THEN alive \ {c} ELSE alive
        /\ Do([ev |-> "push", c |-> c, m |-> nmsg + 1, at |-> at, holds |-> holds])
Stim ==
    \/ Msg(0, {})
    \/ \E w \in 1..3, k \in 1..size.handlers : Msg(0, {k})
    \/ \E w \in 1..ErrWeight, at \in 1..size.handlers : Msg(at, {})
    \/ \E at \in 1..size.handlers, k \in 1..size.handlers : Msg(at, {k})
    \/ \E w \in 1..2, x \in held : held' = held \ {x} /\ UNCHANGED <<alive, nmsg>> /\ Do([ev |-> "release", m |-> x[1], h |-> x[2]])
    \/ \E c \in alive : alive' = alive \ {c} /\ UNCHANGED <<held, nmsg>> /\ Do([ev |-> "lose", c |-> c])
AtRest == IF h = <<>> THEN TRUE ELSE h[Len(h)].ev = "quiet"
Next == UNCHANGED size /\ Len(h) < Depth /\
    \/ ~AtRest /\ UNCHANGED <<alive, held, nmsg>> /\ Do([ev |-> "quiet"])
    \/ (IF AtRest THEN TRUE ELSE Race) /\ Len(h) < Depth - 1 /\ Stim
Emit == (Len(h) = Depth \/ (AtRest /\ alive = {} /\ held = {})) => PrintT("PLAN " \o ToJson([conns |-> NConns, size |-> size, race |-> Race, steps |-> h]))
Spec == Init /\ [][Next]_<<size, alive, held, nmsg, h>>
=============================================================================
