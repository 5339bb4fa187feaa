------------------------------- MODULE Gossip_MC ------------------------------
(* All that a few peers and pushes can do to a node.                        *)
EXTENDS Gossip
CONSTANTS P, Msgs, MaxRuns
VARIABLES took, got, begun, known
mvars == <<gvars, took, got, begun, known>>
\* known: what was marked before any run could pass it on, so that it must not come back.
MInit == peers = P /\ seen = {} /\ runs = <<>> /\ flight = {} /\ took = [m \in Msgs |-> 0] /\ got = [x \in P \X Msgs |-> 0] /\ begun = 0 /\ known = {}
Start == /\ begun < MaxRuns /\ begun' = begun + 1 /\ UNCHANGED <<took, got, known>>
         /\ \E m \in Msgs : Push(begun', m) \/ \E p \in P : Give(begun', p, m)
Inner == \E i \in DOMAIN runs :
    \/ Mark(i) /\ known' = known \cup (IF <<runs[i].p, runs[i].m>> \in seen \/ flight' # flight THEN {} ELSE {<<runs[i].p, runs[i].m>>}) /\ UNCHANGED <<took, got, begun>>
    \/ (Take(i) \/ Own(i) \/ Over(i) \/ Done(i)) /\ UNCHANGED <<took, got, begun, known>>
    \/ Took(i) /\ took' = [took EXCEPT ![runs[i].m] = @ + 1] /\ UNCHANGED <<got, begun, known>>
Arrive == \E p \in P, m \in Msgs : Got(p, m) /\ got' = [got EXCEPT ![<<p, m>>] = @ + 1] /\ UNCHANGED <<took, begun, known>>
MSpec == MInit /\ [][Start \/ Inner \/ Arrive]_mvars /\ WF_mvars(Inner \/ Arrive)
Once(s) == \A i \in DOMAIN s : s[i] <= 1
TakenOnce == Once(took)
SentOnce == Once(got)
NoEcho == \A x \in known : got[x] = 0
\* When all is quiet, everybody has what the node has.
Quiet == DOMAIN runs = {} /\ flight = {}
AllHave == Quiet => \A m \in Msgs : <<0, m>> \in seen => \A p \in P : <<p, m>> \in seen
BecomesQuiet == (begun = MaxRuns) ~> Quiet
=============================================================================
