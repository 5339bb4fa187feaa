------------------------------ MODULE Routing_MC ------------------------------
EXTENDS Routing
CONSTANTS W, Cap, Self, Zero, Keys, Dead, MaxRuns
VARIABLES told, begun
\* Each key has the address of the same number.
MInit == /\ g = [w |-> W, cap |-> Cap, self |-> Self, addr |-> Self, zero |-> Zero]
         /\ b = InitTable(g) /\ runs = <<>> /\ dead = Dead
         /\ told = [k \in Keys |-> 0] /\ begun = 0
Start == /\ begun < MaxRuns /\ begun' = begun + 1 /\ told' = told
         /\ \E k \in Keys : Begin(begun', k, k) \/ (k \in dead /\ BeginFail(begun', k))
Told1(i) == LET s == Tells(i) IN told' = [told EXCEPT ![runs[i].e.k] = @ + (IF s = "admitted" THEN 1 ELSE IF s = "evicted" THEN -1 ELSE 0)]
Go == \E i \in DOMAIN runs : \/ (Hidden(i) \/ End(i)) /\ UNCHANGED <<told, begun>>
                             \/ Tell(i) /\ Told1(i) /\ begun' = begun
MNext == Start \/ Go
MSpec == MInit /\ [][MNext]_<<rvars, told, begun>> /\ WF_<<rvars, told, begun>>(Go)
In(k) == Has(b, g, k)
\* Once all have been told, events and table agree.
EventsAgree == (\A i \in DOMAIN runs : Tells(i) = "nothing") => \A k \in Keys : told[k] = IF In(k) THEN 1 ELSE 0
Bounded == \A i \in DOMAIN b : Len(b[i]) <= Cap
\* Peers that answer stay, and somebody is only left out in favour of one that does.
LiveStay == [][\A k \in Keys : (In(k) /\ k \notin dead) => In(k)']_rvars
LeftOut == [][\A i \in DOMAIN runs : (At(i, "ping") /\ Pong(i)) => runs[i].e.a \notin dead]_rvars
AllEnd == \A i \in 1..MaxRuns : i \in DOMAIN runs ~> i \notin DOMAIN runs
=============================================================================
