-------------------------------- MODULE Routing -------------------------------
(***************************************************************************)
(* How peers get into a node's routing table and out of it.  A peer heard  *)
(* from is a run of Ack: it updates the table, and if the peer's bucket is *)
(* full pings the last entry of it, to take it out if there is no pong.  A *)
(* dial that failed is a run as well, which takes out an entry with that   *)
(* address.  Runs overlap; only table operations are atomic.               *)
(*                                                                         *)
(* runs: id -> [pc, k, a, e] for what the run is about and its entry.      *)
(* dead: addresses that do not answer pings.                               *)
(***************************************************************************)
EXTENDS Table

VARIABLES b, g, runs, dead
rvars == <<b, g, runs, dead>>

NoEntry == [k |-> 0, a |-> 0]
Begin(i, k, a) == runs' = (i :> [pc |-> "update", k |-> k, a |-> a, e |-> NoEntry]) @@ runs /\ UNCHANGED <<b, g, dead>>
BeginFail(i, a) == runs' = (i :> [pc |-> "drop", k |-> 0, a |-> a, e |-> NoEntry]) @@ runs /\ UNCHANGED <<b, g, dead>>
At(i, pc) == runs[i].pc = pc
Goto(i, pc) == runs' = [runs EXCEPT ![i].pc = pc]
GotoWith(i, pc, e) == runs' = [runs EXCEPT ![i].pc = pc, ![i].e = e]

Update(i) ==
    /\ At(i, "update")
    /\ LET r == runs[i]
           out == UpdateOut(b, g, r.k)
       IN /\ b' = Updated(b, g, r.k, r.a)
          /\ GotoWith(i, IF out = "new" THEN "admit" ELSE IF out = "known" THEN "active" ELSE "look", [k |-> r.k, a |-> r.a])
    /\ UNCHANGED <<g, dead>>
\* The bucket may have been emptied by now.
Look(i) ==
    /\ At(i, "look")
    /\ LET s == Of(b, g, runs[i].k) IN IF s = <<>> THEN Goto(i, "update") ELSE GotoWith(i, "ping", Last(s))
    /\ UNCHANGED <<b, g, dead>>
Pong(i) == At(i, "ping") /\ runs[i].e.a \notin dead /\ Goto(i, "done") /\ UNCHANGED <<b, g, dead>>
NoPong(i) ==
    /\ At(i, "ping") /\ runs[i].e.a \in dead
    /\ LET e == runs[i].e IN
       IF Has(b, g, e.k) THEN b' = Removed(b, g, Entry(b, g, e.k)) /\ GotoWith(i, "evict", Entry(b, g, e.k))
       ELSE b' = b /\ Goto(i, "update")
    /\ UNCHANGED <<g, dead>>
Drop(i) ==
    /\ At(i, "drop")
    /\ LET here == {e \in All(b) : e.a = runs[i].a} IN
       IF here = {} THEN Goto(i, "done") /\ b' = b
       ELSE \E e \in here : b' = Removed(b, g, e) /\ GotoWith(i, "dropped", e)
    /\ UNCHANGED <<g, dead>>
Hidden(i) == Update(i) \/ Look(i) \/ Pong(i) \/ NoPong(i) \/ Drop(i)

\* What run i tells next, if anything.
Tells(i) == CASE runs[i].pc = "admit" -> "admitted" [] runs[i].pc = "active" -> "activity"
              [] runs[i].pc \in {"evict", "dropped"} -> "evicted" [] OTHER -> "nothing"
Tell(i) == Tells(i) # "nothing" /\ Goto(i, IF runs[i].pc = "evict" THEN "update" ELSE "done") /\ UNCHANGED <<b, g, dead>>
End(i) == At(i, "done") /\ runs' = [j \in DOMAIN runs \ {i} |-> runs[j]] /\ UNCHANGED <<b, g, dead>>
=============================================================================
