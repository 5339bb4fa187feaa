--------------------------- MODULE GossipNet_Trace ----------------------------
(* Checks which nodes of a network were seen to take up what was pushed.    *)
EXTENDS Naturals, FiniteSets, TraceBatch
CONSTANTS Once,   \* whether each node takes up a message once at most
          All     \* whether all nodes that are reached do
VARIABLES net, pushed, took
tvars == <<net, pushed, took, tr, l>>
Set(s) == {s[i] : i \in 1..Len(s)}
TInit == BatchInit /\ net = [n |-> 0] /\ pushed = <<>> /\ took = {}
Keeps(n) == n \notin Set(net.quits)
RECURSIVE Reach(_)
Reach(s) == LET t == s \cup {e[2] : e \in {x \in Set(net.edges) : x[1] \in s /\ Keeps(x[2])}} IN IF t = s THEN s ELSE Reach(t)
TNext ==
    \/ IsEvent("net") /\ net' = Step /\ UNCHANGED <<pushed, took>>
    \/ IsEvent("push") /\ pushed' = (Step.m :> Step.n) @@ pushed /\ UNCHANGED <<net, took>>
    \/ /\ IsEvent("took") /\ UNCHANGED <<net, pushed>> /\ took' = took \cup {<<Step.n, Step.m>>}
       /\ Step.m \in DOMAIN pushed
       /\ (Once => <<Step.n, Step.m>> \notin took /\ pushed[Step.m] # Step.n) = TRUE
    \/ /\ IsEvent("end") /\ UNCHANGED <<net, pushed, took>>
       /\ (All => \A m \in DOMAIN pushed : \A n \in Reach({pushed[m]}) \ {pushed[m]} : <<n, m>> \in took) = TRUE
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
