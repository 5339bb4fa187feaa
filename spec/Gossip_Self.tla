------------------------------ MODULE Gossip_Self -----------------------------
(* What behaviours of Gossip look like from outside, to see that            *)
(* Gossip_Trace, which does not search, has an explanation for each.        *)
EXTENDS Gossip, Json
CONSTANTS P, MaxRuns
VARIABLES h, begun
sv == <<gvars, h, begun>>
R(S) == {RandomElement(S)}
SInit == peers = P /\ seen = {} /\ runs = <<>> /\ flight = {} /\ begun = 0 /\ h = [i \in 1..Cardinality(P) |-> [ev |-> "join", p |-> i]]
Say(e) == h' = Append(h, e) /\ begun' = begun
Still == h' = h /\ begun' = begun
Begin == /\ begun < MaxRuns /\ begun' = begun + 1
         /\ \E p \in R(P), w \in R(1..3) :
              IF w = 1 THEN Push(begun', 1) /\ h' = Append(h, [ev |-> "push", i |-> begun', m |-> 1])
              ELSE Give(begun', p, 1) /\ h' = Append(h, [ev |-> "give", i |-> begun', p |-> p, m |-> 1])
Act(i) ==
    \/ (Mark(i) \/ Take(i) \/ Own(i) \/ Over(i)) /\ Still
    \/ Took(i) /\ Say([ev |-> "took", p |-> runs[i].p, m |-> 1])
    \/ Done(i) /\ Say(IF runs[i].p = 0 THEN [ev |-> "pushed", i |-> i] ELSE [ev |-> "handled", p |-> runs[i].p, m |-> 1])
SNext == \/ Begin
         \/ \E i \in DOMAIN runs : Act(i)
         \/ \E p \in P : Got(p, 1) /\ Say([ev |-> "got", p |-> p, m |-> 1])
         \/ begun = MaxRuns /\ DOMAIN runs = {} /\ flight = {} /\ Say([ev |-> "end"]) /\ UNCHANGED gvars
SSpec == SInit /\ [][SNext]_sv
Ended == h # <<>> /\ h[Len(h)].ev = "end"
Go == ~Ended
Emit == Ended => PrintT("PLAN " \o ToJson([steps |-> h]))
=============================================================================
