---------------------------- MODULE Hostile_Trace ----------------------------
(* Checks what was seen of a node that hostile peers were at work on.       *)
EXTENDS Hostile, TraceBatch
tvars == <<hvars, tr, l>>
TInit == BatchInit /\ HInit
\* Connections come and go; each is told from those before.
Fresh(x) == stage' = (x :> "kex") @@ stage /\ listed' = listed \cup {x} /\ moving' = moving \cup {x} /\ UNCHANGED <<queue, at, canary>>
TNext ==
    \/ IsEvent("open") /\ Fresh(Step.x)
    \/ IsEvent("good") /\ Good(Step.x)
    \/ IsEvent("bad") /\ UNCHANGED hvars
    \/ IsEvent("node") /\ UNCHANGED hvars
    \/ IsEvent("off") /\ Off(Step.x)
    \/ IsEvent("unlisted") /\ Step.x \in listed /\ Unlist(Step.x)
    \* Whatever the honest peer asks for it is given.
    \/ IsEvent("canary") /\ Step.res = "ok" /\ UNCHANGED hvars
    \/ IsEvent("end") /\ listed = {} /\ (\A x \in DOMAIN stage : stage[x] = "off") = TRUE /\ UNCHANGED hvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
