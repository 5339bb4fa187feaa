----------------------------- MODULE Lookup_Trace -----------------------------
(* Checks what lookups were seen to ask, and what they found.               *)
EXTENDS Lookup, TraceBatch
tvars == <<lvars, tr, l>>
TInit == BatchInit /\ g = [w |-> 0] /\ ok = {} /\ knows = <<>> /\ finds = <<>>
Known(ps, k) == LET S == {i \in 1..Len(ps) : ps[i].k = k} IN Range(ps[CHOOSE i \in S : TRUE].knows)
Looking == Step.f \in DOMAIN finds
TNext ==
    \/ /\ IsEvent("net") /\ g' = Step.g /\ ok' = {p.k : p \in {q \in Range(Step.peers) : q.ok}}
       /\ knows' = [k \in {p.k : p \in Range(Step.peers)} |-> Known(Step.peers, k)] /\ finds' = <<>>
    \/ IsEvent("find") /\ Find(Step.f, Step.target, Step.max, Range(Step.table)) /\ UNCHANGED <<g, ok, knows>>
    \/ IsEvent("asked") /\ Looking /\ Ask(Step.f, Step.p) /\ UNCHANGED <<g, ok, knows>>
    \/ IsEvent("answered") /\ Looking /\ Answer(Step.f, Step.p) /\ UNCHANGED <<g, ok, knows>>
    \/ IsEvent("found") /\ Looking /\ (Result(Step.f) = Step.ks) = TRUE /\ End(Step.f) /\ UNCHANGED <<g, ok, knows>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
