----------------------------- MODULE Workers_Trace ----------------------------
(* Checks how a node was seen to handle messages. *)
EXTENDS Workers, TraceBatch, SequencesExt
Plan == Traces[tr].plan
tvars == <<vars, tr, l>>
TInit == BatchInit /\ InitWith(Plan.size, 1..Plan.conns)
TNext ==
    \/ IsEvent("push") /\ Step.m = Len(msgs) + 1 /\ Push(Step.c, Step.at, ToSet(Step.holds))
    \/ IsEvent("release") /\ Release(Step.m, Step.h)
    \/ IsEvent("lose") /\ Lose(Step.c)
    \/ IsEvent("hand") /\ Step.m \in Msgs /\ Call(Step.m, Step.h)
    \/ IsEvent("done") /\ Return(Step.m, Step.h)
    \/ IsEvent("dis") /\ Closed(Step.c, Step.cause)
    \/ IsEvent("quiet") /\ Quiet = TRUE /\ UNCHANGED vars
    \* Taking messages no earlier than needed leaves the most room.
    \/ More /\ Step.ev = "hand" /\ Step.h = 1 /\ UNCHANGED <<tr, l>>
       /\ \E c \in DOMAIN pending : Step.m \in ToSet(pending[c]) /\ Take(c)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
