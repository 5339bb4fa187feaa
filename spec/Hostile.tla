------------------------------- MODULE Hostile -------------------------------
(***************************************************************************)
(* A node with a few workers, connections of peers that do whatever they   *)
(* like, and one of an honest peer.                                        *)
(*                                                                         *)
(* A connection h is "kex" and then "id" while it shakes hands, "up", and  *)
(* "off" once either end has closed it; it is listed from when it is       *)
(* opened until some time after it is off.  When it is up, what it brings  *)
(* in is taken from the line by its reader and goes to a bounded queue     *)
(* that all share, from where workers take it.  Work may wait for somebody *)
(* who does not answer: for a hostile peer that does not read what it is   *)
(* sent or that it has the node dial.  Such a wait ends when the           *)
(* connection waited for ends, and that of one on which nothing moves ends *)
(* by itself.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Hostiles, Workers, Queue,
          Deadlines   \* FALSE: connections on which nothing moves do not end

VARIABLES stage, listed, moving, queue, at, canary
\* moving: who keeps reading and sending what it has begun to.  at[w]: what worker w is at.
hvars == <<stage, listed, moving, queue, at, canary>>

Free == "free"
HInit == /\ stage = [h \in Hostiles |-> "none"] /\ listed = {} /\ moving = {} /\ queue = <<>>
         /\ at = [w \in Workers |-> Free] /\ canary = "idle"

Open(h) == stage[h] = "none" /\ stage' = [stage EXCEPT ![h] = "kex"] /\ listed' = listed \cup {h}
           /\ moving' = moving \cup {h} /\ UNCHANGED <<queue, at, canary>>
\* What a peer that shakes hands properly sends.
Good(h) == /\ stage[h] \in {"kex", "id"} /\ stage' = [stage EXCEPT ![h] = IF stage[h] = "kex" THEN "id" ELSE "up"]
           /\ UNCHANGED <<listed, moving, queue, at, canary>>
\* Anything else may be ignored on a connection that is up, or may end the connection.
Off(h) == /\ stage[h] \in {"kex", "id", "up"} /\ stage' = [stage EXCEPT ![h] = "off"] /\ moving' = moving \ {h}
          /\ UNCHANGED <<listed, queue, at, canary>>
Bad(h) == Off(h) \/ (stage[h] = "up" /\ UNCHANGED hvars)
Leave(h) == Off(h)
\* It stops reading, or in the middle of what it sends.
Stop(h) == h \in moving /\ moving' = moving \ {h} /\ UNCHANGED <<stage, listed, queue, at, canary>>
TimeOut(h) == Deadlines /\ h \notin moving /\ Off(h)
Bring(h) == /\ stage[h] = "up" /\ Len(queue) < Queue /\ queue' = Append(queue, h)
            /\ UNCHANGED <<stage, listed, moving, at, canary>>
Unlist(h) == stage[h] = "off" /\ listed' = listed \ {h} /\ UNCHANGED <<stage, moving, queue, at, canary>>

Begin(w) == at[w] = Free /\ queue # <<>> /\ at' = [at EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
            /\ UNCHANGED <<stage, listed, moving, canary>>
\* Work for a hostile peer ends when that reads, or is off.
Ends(x) == x \notin Hostiles \/ x \in moving \/ stage[x] = "off"
Finish(w) == /\ at[w] # Free /\ Ends(at[w]) = TRUE /\ at' = [at EXCEPT ![w] = Free]
             /\ canary' = IF at[w] = "canary" THEN "served" ELSE canary
             /\ UNCHANGED <<stage, listed, moving, queue>>
Ask == canary = "idle" /\ canary' = "sent" /\ UNCHANGED <<stage, listed, moving, queue, at>>
Bring0 == canary = "sent" /\ Len(queue) < Queue /\ canary' = "queued" /\ queue' = Append(queue, "canary")
          /\ UNCHANGED <<stage, listed, moving, at>>
Content == canary = "served" /\ canary' = "idle" /\ UNCHANGED <<stage, listed, moving, queue, at>>
=============================================================================
