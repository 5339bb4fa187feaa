------------------------------ MODULE Answer_Gen ------------------------------
(***************************************************************************)
(* What peers ask a node, and what its handlers do about it: each message  *)
(* is a request or not, and each handler makes attempts at answering it,   *)
(* on the spot, from goroutines, or later on.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxMsgs, MaxTries, Handlers, Hows, NConns
VARIABLES hs, msgs, cur
GInit == hs \in 1..Handlers /\ msgs = <<>> /\ cur = [c |-> 1, req |-> TRUE, same |-> FALSE, tries |-> <<>>]
AddTry == /\ Len(cur.tries) < MaxTries /\ Len(msgs) < MaxMsgs
          /\ \E h \in 1..hs, how \in Hows : cur' = [cur EXCEPT !.tries = Append(@, [h |-> h, how |-> how])]
          /\ UNCHANGED <<hs, msgs>>
\* same: under the number of the request before it, which was answered in between.
AddMsg == /\ Len(msgs) < MaxMsgs
          /\ msgs' = Append(msgs, cur)
          /\ \E c \in 1..NConns, req, same \in BOOLEAN : cur' = [c |-> c, req |-> req, same |-> same, tries |-> <<>>]
          /\ UNCHANGED hs
GNext == AddTry \/ AddMsg
GSpec == GInit /\ [][GNext]_<<hs, msgs, cur>>
Emit == Len(msgs) = MaxMsgs => PrintT("PLAN " \o ToJson([handlers |-> hs, conns |-> NConns, msgs |-> msgs]))
=============================================================================
