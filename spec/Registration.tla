------------------------------ MODULE Registration ----------------------------
(***************************************************************************)
(* What is registered with a node, and when it starts to listen.           *)
(*                                                                         *)
(* A registration [k, ids] adds handlers (k = "h") or protocols ("p"), all *)
(* at once.  Protos says of each protocol whether it has a bind callback   *)
(* and whether that fails.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES hs, ps,   \* handlers and protocols registered, in order
          phase,    \* "new", "binding", "on" (it listens), "failed" (it failed to)
          nb,       \* the protocol being bound, or next to be
          inBind, closed,
          port,     \* whether the port is taken
          why       \* what listening failed with: the protocol whose bind failed, or 0
rvars == <<hs, ps, phase, nb, inBind, closed, port, why>>

InitR == /\ hs = <<>> /\ ps = <<>> /\ phase = "new" /\ nb = 1 /\ inBind = FALSE
         /\ closed = FALSE /\ port = FALSE /\ why = 0

\* A registration takes effect.
Register(r) ==
    /\ hs' = IF r.k = "h" /\ phase # "on" THEN hs \o r.ids ELSE hs
    /\ ps' = IF r.k = "p" /\ phase # "on" THEN ps \o r.ids ELSE ps
    /\ UNCHANGED <<phase, nb, inBind, closed, port, why>>

Listen == phase = "new" /\ phase' = "binding" /\ port' = TRUE /\ UNCHANGED <<hs, ps, nb, inBind, closed, why>>
\* The port cannot be had.
ListenInUse == phase = "new" /\ phase' = "failed" /\ UNCHANGED <<hs, ps, nb, inBind, closed, port, why>>
Current == ps[nb]
CanBind == phase = "binding" /\ ~inBind /\ nb <= Len(ps)
Skip(hasBind) == CanBind /\ ~hasBind /\ nb' = nb + 1 /\ UNCHANGED <<hs, ps, phase, inBind, closed, port, why>>
BindStart(p) == CanBind /\ Current = p /\ inBind' = TRUE /\ UNCHANGED <<hs, ps, phase, nb, closed, port, why>>
BindEnd(p, ok) ==
    /\ inBind /\ Current = p
    /\ inBind' = FALSE /\ nb' = nb + 1
    /\ IF ok THEN UNCHANGED <<phase, port, why>> ELSE phase' = "failed" /\ port' = FALSE /\ why' = p
    /\ UNCHANGED <<hs, ps, closed>>
\* All protocols have been bound. This is when what is registered becomes final.
Start == /\ phase = "binding" /\ ~inBind /\ nb > Len(ps) /\ ~closed
         /\ phase' = "on" /\ UNCHANGED <<hs, ps, nb, inBind, closed, port, why>>
\* It was closed before it started to listen.
GiveUp == /\ phase = "binding" /\ ~inBind /\ closed
          /\ phase' = "failed" /\ port' = FALSE /\ UNCHANGED <<hs, ps, nb, inBind, closed, why>>
Close == closed' = TRUE /\ port' = (port /\ phase # "on") /\ UNCHANGED <<hs, ps, phase, nb, inBind, why>>

-----------------------------------------------------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
PortAccounted == (phase = "failed" => ~port) /\ (phase = "on" /\ ~closed => port)
Frozen == [][phase = "on" => hs' = hs /\ ps' = ps]_rvars
OnlyAdded == [][/\ Len(hs') >= Len(hs) /\ SubSeq(hs', 1, Len(hs)) = hs
                /\ Len(ps') >= Len(ps) /\ SubSeq(ps', 1, Len(ps)) = ps]_rvars
=============================================================================
