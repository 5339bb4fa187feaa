---------------------------- MODULE Session_Trace ----------------------------
(* Checks recorded handshakes of the implementation against Session. *)
EXTENDS Session, TraceBatch

tvars == <<vars, tr, l>>

TInit == Init /\ BatchInit /\ role = Traces[tr].plan.role

Frame(s) == [k \in (DOMAIN s) \ {"accepted"} |-> s[k]]

\* What H lets its user see at the end must be what the specification says.
Agrees(o) ==
    /\ o.connected = (IF peer # "none" THEN 1 ELSE 0)
    /\ o.peer = peer
    /\ o.handled = handled
    /\ \A i \in 1..Len(o.senders) : o.senders[i] = peer
    /\ o.listed = (IF phase = "up" THEN 1 ELSE 0)
    /\ o.open = FALSE
    /\ o.call = (IF role = "accept" THEN "none" ELSE IF peer # "none" THEN "ok" ELSE "error")

TNext ==
    \/ IsEvent("hangup") /\ Hangup
    \/ IsEvent("kex") /\ Kex(Frame(Step))
    \/ IsEvent("id") /\ Id(Frame(Step))
    \/ IsEvent("msg") /\ Msg(Frame(Step))
    \* Sent in vain: the connection was refused already.
    \/ IsEvent("msg") /\ phase = "closed" /\ UNCHANGED vars
    \/ IsEvent("end") /\ Agrees(Step) /\ UNCHANGED vars

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
