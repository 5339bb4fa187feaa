----------------------------- MODULE Hostile_MC ------------------------------
(* Nothing a few hostile peers do keeps the honest one from being served.   *)
EXTENDS Hostile
HNext == \/ \E h \in Hostiles : (Open(h) \/ Good(h) \/ Bad(h) \/ Leave(h) \/ Stop(h) \/ TimeOut(h) \/ Bring(h) \/ Unlist(h))
         \/ \E w \in Workers : Begin(w) \/ Finish(w)
         \/ Ask \/ Bring0 \/ Content
HSpec == /\ HInit /\ [][HNext]_hvars
         /\ \A h \in Hostiles : WF_hvars(TimeOut(h)) /\ WF_hvars(Unlist(h) /\ h \in listed)
         /\ \A w \in Workers : WF_hvars(Begin(w)) /\ WF_hvars(Finish(w))
         /\ SF_hvars(Bring0)
TypeOk == /\ stage \in [Hostiles -> {"none", "kex", "id", "up", "off"}] /\ listed \subseteq Hostiles /\ Len(queue) <= Queue
          /\ canary \in {"idle", "sent", "queued", "served"}
Listed == \A h \in Hostiles : stage[h] = "none" => h \notin listed
Served == (canary \in {"sent", "queued"}) ~> (canary = "served")
Cleared == \A h \in Hostiles : (stage[h] = "off") ~> (h \notin listed)
=============================================================================
