---------------------------- MODULE Routing_Trace -----------------------------
(* Checks what a node was seen to do with its routing table when it heard   *)
(* from peers.  Runs are told when they begin and end.                      *)
EXTENDS Routing, TraceBatch
tvars == <<rvars, tr, l>>
TInit == BatchInit /\ g = [w |-> 0] /\ b = <<>> /\ runs = <<>> /\ dead = {}
\* Events come from within a run, or from nobody knows which.
Source(s) == IF s.i \in DOMAIN runs THEN {s.i} ELSE DOMAIN runs
\* Looking at a bucket happens at a moment before it is told.
Shows(s) == IF s.at < 0 THEN s.es = <<>> ELSE b[s.at] = s.es
TNext ==
    \/ IsEvent("table") /\ g' = Step.g /\ b' = InitTable(Step.g) /\ UNCHANGED <<runs, dead>>
    \/ IsEvent("dead") /\ dead' = Range(Step.as) /\ UNCHANGED <<b, g, runs>>
    \/ IsEvent("ack") /\ Begin(Step.i, Step.k, Step.a)
    \/ IsEvent("fail") /\ BeginFail(Step.i, Step.a)
    \/ IsEvent("end") /\ End(Step.i)
    \/ /\ More /\ Step.ev \in {"admitted", "activity", "evicted"} /\ IsEvent(Step.ev)
       /\ \E i \in Source(Step) : (Tells(i) = Step.ev /\ runs[i].e = Step.e) = TRUE /\ Tell(i)
    \/ IsEvent("look") /\ runs' = (0 :> [pc |-> "see", k |-> 0, a |-> 0, e |-> NoEntry]) @@ runs /\ UNCHANGED <<b, g, dead>>
    \/ IsEvent("bucket") /\ End(0)
    \/ /\ More /\ Step.ev = "bucket" /\ At(0, "see") /\ Shows(Step) = TRUE /\ Goto(0, "done") /\ UNCHANGED <<b, g, dead, tr, l>>
    \/ /\ More /\ Step.ev \in {"admitted", "activity", "evicted", "end", "bucket"}
       /\ (\E i \in DOMAIN runs : Hidden(i)) /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
