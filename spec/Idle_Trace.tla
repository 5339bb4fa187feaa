------------------------------ MODULE Idle_Trace ------------------------------
(* Checks when a connection was seen to be closed. Times are in ms. *)
EXTENDS Idle, TraceBatch
VARIABLES out  \* messages sent that have not arrived
tvars == <<ivars, out, tr, l>>
T == Traces[tr].plan.T
Grace == 8000
TInit == BatchInit /\ InitI /\ out = {}
TNext ==
    \* Something complete is on its way at that time, in either direction.
    \/ IsEvent("active") /\ Active(Step.t) /\ out' = (IF Step.m > 0 THEN out \cup {Step.m} ELSE out)
    \/ IsEvent("part") /\ Stir(Step.t) /\ UNCHANGED out
    \/ IsEvent("arrived") /\ Step.m \in out /\ out' = out \ {Step.m} /\ UNCHANGED ivars
    \/ IsEvent("closed") /\ Close(T, Step.t) /\ UNCHANGED out
    \* It was still there then; all has arrived.
    \/ IsEvent("open") /\ up /\ ~MustBeClosed(T, Grace, Step.t) /\ out = {} /\ UNCHANGED <<ivars, out>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
