------------------------------- MODULE GossipNet ------------------------------
(* A network of nodes that pass on one message.  Edges says whom a node has *)
(* in its table.  Nodes in Quits may stop running at any moment.            *)
EXTENDS Naturals, FiniteSets
CONSTANTS Nodes, Pusher, Quits
VARIABLES edges, has, knows, wire, gone, took
nvars == <<edges, has, knows, wire, gone, took>>
\* knows[n]: whom n knows to have it. wire: sent and not yet handled.
Running == Nodes \ gone
NInit == /\ edges \in {e \in SUBSET (Nodes \X Nodes) : \A x \in e : x[1] # x[2]}
         /\ has = {} /\ knows = [n \in Nodes |-> {}] /\ wire = {} /\ gone = {} /\ took = [n \in Nodes |-> 0]
PushIt == has = {} /\ has' = {Pusher} /\ UNCHANGED <<edges, knows, wire, gone, took>>
Send(n, m) ==
    /\ n \in has \ gone /\ <<n, m>> \in edges /\ m \notin knows[n]
    /\ knows' = [knows EXCEPT ![n] = @ \cup {m}]
    /\ wire' = IF m \in gone THEN wire ELSE wire \cup {<<n, m>>}
    /\ UNCHANGED <<edges, has, gone, took>>
Handle(n, m) ==
    /\ <<n, m>> \in wire /\ m \notin gone
    /\ wire' = wire \ {<<n, m>>} /\ knows' = [knows EXCEPT ![m] = @ \cup {n}]
    /\ has' = has \cup {m} /\ took' = IF m \in has THEN took ELSE [took EXCEPT ![m] = @ + 1]
    /\ UNCHANGED <<edges, gone>>
Quit(n) == n \in Quits \ gone /\ gone' = gone \cup {n} /\ UNCHANGED <<edges, has, knows, wire, took>>
Work == PushIt \/ \E n, m \in Nodes : Send(n, m) \/ Handle(n, m)
NSpec == NInit /\ [][Work \/ \E n \in Quits : Quit(n)]_nvars /\ WF_nvars(Work)
AtMostOnce == \A n \in Nodes : took[n] <= 1 /\ took[Pusher] = 0
\* Those that keep running and are reached by way of such.
RECURSIVE Reach(_)
Reach(s) == LET t == s \cup {m \in Nodes \ Quits : \E n \in s : <<n, m>> \in edges} IN IF t = s THEN s ELSE Reach(t)
Arrives == <>[](Reach({Pusher}) \subseteq has)
=============================================================================
