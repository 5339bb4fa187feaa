-------------------------------- MODULE Idle_MC -------------------------------
(***************************************************************************)
(* How the node does it: with a deadline for the read under way, set when  *)
(* it begins waiting for a frame, and extended when it begins to write.    *)
(* That has to close connections when Idle allows it, and only then.       *)
(***************************************************************************)
EXTENDS Idle
CONSTANTS T, Grace, End,
          Extend \* whether writing extends the deadline for reading
VARIABLES now, rd
vars == <<ivars, now, rd>>
MInit == InitI /\ now = 0 /\ rd = T
Tick == /\ now < End /\ now' = now + 1
        \* Nothing is late here.
        /\ (up /\ T > 0 => now < rd)
        /\ UNCHANGED <<ivars, rd>>
Recv == up /\ Active(now) /\ rd' = now + T /\ UNCHANGED now
Part == up /\ Stir(now) /\ UNCHANGED <<now, rd>>
Send == up /\ Active(now) /\ rd' = (IF Extend THEN now + T ELSE rd) /\ UNCHANGED now
Expire == up /\ T > 0 /\ now >= rd /\ up' = FALSE /\ UNCHANGED <<last, stir, now, rd>>
MNext == Tick \/ Recv \/ Part \/ Send \/ Expire
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(Tick \/ Expire)
OnlyWhenIdle == [][up /\ ~up' => MayClose(T, now)]_vars
InTime == up => ~MustBeClosed(T, Grace, now)
=============================================================================
