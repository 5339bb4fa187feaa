---------------------------------- MODULE Idle --------------------------------
(***************************************************************************)
(* When a connection may, and when it must, be closed for being idle.      *)
(* Times are numbers; T is the idle timeout, 0 for none.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

VARIABLES up,     \* whether the connection is there, in whatever stage
          last,   \* when last a frame was received or sent
          stir    \* when last anything at all came in or went out, be it part of a frame
ivars == <<up, last, stir>>

InitI == up = TRUE /\ last = 0 /\ stir = 0
Active(t) == last' = t /\ stir' = t /\ UNCHANGED up
Stir(t) == stir' = t /\ UNCHANGED <<up, last>>
MayClose(T, t) == T > 0 /\ t >= last + T
MustBeClosed(T, grace, t) == T > 0 /\ t >= stir + T + grace
Close(T, t) == up /\ MayClose(T, t) /\ up' = FALSE /\ UNCHANGED <<last, stir>>
=============================================================================
