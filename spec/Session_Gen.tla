----------------------------- MODULE Session_Gen -----------------------------
(* Every behaviour of Session up to its end, printed as plans for the driver. *)
EXTENDS Session, Json
VARIABLE hist
GInit == Init /\ hist = <<>>

Acc(f, a) == f @@ [accepted |-> a]
GNext ==
    \/ Hangup /\ hist' = Append(hist, [ev |-> "hangup"])
    \/ \E f \in KexFrames : Kex(f) /\ hist' = Append(hist, Acc(f, KexOk(f)))
    \/ \E f \in IdFrames : Id(f) /\ (phase' = "up") = IdOk(f) /\ hist' = Append(hist, Acc(f, IdOk(f)))
    \/ \E m \in Msgs : Msg(m) /\ hist' = Append(hist, Acc(m, phase = "up" /\ m.seal = "session"))
GSpec == GInit /\ [][GNext]_<<vars, hist>>

Final == phase = "closed" \/ (phase = "up" /\ handled = 1) \/ (phase = "up" /\ ~knows)
Plan == [role |-> role, steps |-> hist, res |-> phase, handled |-> handled]
Emit == Final => PrintT("PLAN " \o ToJson(Plan))
=============================================================================
