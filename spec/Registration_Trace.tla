-------------------------- MODULE Registration_Trace --------------------------
(* Checks what a node was seen to do with registrations. *)
EXTENDS Registration, TraceBatch
VARIABLES pend,   \* registrations and closes called: id -> [r, done]
          lst     \* Listen: "no", "called", "over"
tvars == <<rvars, pend, lst, tr, l>>
TInit == BatchInit /\ InitR /\ pend = <<>> /\ lst = "no"
HasBind(p) == Traces[tr].plan.protos[p].b # "none"
Here == UNCHANGED <<tr, l>>
Same(s, t) == Len(s) = Len(t) /\ Range(s) = Range(t)
Silent ==
    /\ More /\ Here
    /\ \/ \E i \in DOMAIN pend : /\ ~pend[i].done /\ pend' = [pend EXCEPT ![i].done = TRUE] /\ UNCHANGED lst
                                 /\ IF pend[i].r.k = "close" THEN Close ELSE Register(pend[i].r)
       \/ lst = "called" /\ UNCHANGED <<pend, lst>>
            /\ (Listen \/ ((nb <= Len(ps)) = TRUE /\ Skip(HasBind(Current))) \/ Start \/ GiveUp)
TNext ==
    \/ Silent
    \/ IsEvent("call") /\ pend' = (Step.i :> [r |-> Step.r, done |-> FALSE]) @@ pend /\ UNCHANGED <<rvars, lst>>
    \/ /\ IsEvent("ret") /\ pend[Step.i].done
       /\ pend' = [i \in DOMAIN pend \ {Step.i} |-> pend[i]] /\ UNCHANGED <<rvars, lst>>
    \/ IsEvent("listen") /\ lst' = "called" /\ UNCHANGED <<rvars, pend>>
    \/ IsEvent("binding") /\ lst = "called" /\ BindStart(Step.p) /\ UNCHANGED <<pend, lst>>
    \/ IsEvent("bound") /\ lst = "called" /\ BindEnd(Step.p, Step.ok) /\ UNCHANGED <<pend, lst>>
    \/ /\ IsEvent("listening") /\ lst = "called" /\ lst' = "over"
       /\ IF Step.s = "inuse" THEN ListenInUse
          ELSE UNCHANGED rvars /\ (IF Step.s = "ok" THEN phase = "on" ELSE phase = "failed" /\ why = Step.p) = TRUE
       /\ UNCHANGED pend
    \* Listening again is refused, and changes nothing.
    \/ IsEvent("again") /\ Step.s = "err" /\ (phase = "on") = TRUE /\ UNCHANGED <<rvars, pend, lst>>
    \* Which handlers got a message, in order, and which protocols got each of their callbacks.
    \/ /\ IsEvent("use") /\ phase = "on"
       /\ (Step.handled = hs) = TRUE
       /\ (\A f \in {"connected", "recv", "sent", "gone", "failed"} : Same(Step[f], ps)) = TRUE
       /\ UNCHANGED <<rvars, pend, lst>>
    \/ IsEvent("port") /\ (Step.taken = port) = TRUE /\ UNCHANGED <<rvars, pend, lst>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
