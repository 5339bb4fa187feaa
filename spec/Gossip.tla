--------------------------------- MODULE Gossip -------------------------------
(***************************************************************************)
(* One node and its peers, given and passing on messages.  seen tells who  *)
(* is known to have which message, 0 being the node itself.  A run is the  *)
(* handling of a message that was given, or a push:                        *)
(*   new -> marked -> take -> fwd -> over       push -> fwd -> over        *)
(* left: whom a run may still pass the message on to. flight: sent, not    *)
(* seen to arrive.                                                         *)
(*                                                                         *)
(* That a peer gets a message is decided at some moment of a run.  It only *)
(* makes a difference when the peer gets it, gives it, or the run ends, so *)
(* it is decided then.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Takes,    \* whether what is taken up is restricted
          Forwards  \* whether what is passed on is
VARIABLES peers, seen, runs, flight
gvars == <<peers, seen, runs, flight>>

GInit == peers = {} /\ seen = {} /\ runs = <<>> /\ flight = {}
Join(p) == peers' = peers \cup {p} /\ UNCHANGED <<seen, runs, flight>>
Leave(p) == peers' = peers \ {p} /\ UNCHANGED <<seen, runs, flight>>
New(i, p, m, pc) == runs' = (i :> [p |-> p, m |-> m, pc |-> pc, left |-> {}]) @@ runs /\ UNCHANGED <<peers, seen, flight>>
Give(i, p, m) == New(i, p, m, "new")
Push(i, m) == New(i, 0, m, "push")
At(i, pc) == runs[i].pc = pc
Goto(i, pc) == runs' = [runs EXCEPT ![i].pc = pc]
Forward(i) == runs' = [runs EXCEPT ![i].pc = "fwd", ![i].left = IF Forwards THEN peers ELSE {}]

\* Somebody is about to pass m on to p.
Undecided(p, m) == <<p, m>> \notin seen /\ \E j \in DOMAIN runs : runs[j].m = m /\ p \in runs[j].left
Mark(i) ==
    /\ At(i, "new") /\ Goto(i, "marked") /\ UNCHANGED peers
    /\ LET x == <<runs[i].p, runs[i].m>> IN
       /\ seen' = seen \cup {x}
       /\ \/ flight' = flight
          \/ Undecided(x[1], x[2]) /\ flight' = flight \cup {x}
Take(i) ==
    /\ At(i, "marked") /\ UNCHANGED <<peers, flight>>
    /\ LET x == <<0, runs[i].m>> IN
       /\ seen' = seen \cup {x}
       /\ \/ (x \in seen \/ ~Takes) /\ Goto(i, "over")
          \/ (x \notin seen \/ ~Takes) /\ Goto(i, "take")
Took(i) == (At(i, "take") \/ (~Takes /\ At(i, "marked"))) /\ Forward(i) /\ UNCHANGED <<peers, seen, flight>>
Own(i) == At(i, "push") /\ seen' = seen \cup {<<0, runs[i].m>>} /\ Forward(i) /\ UNCHANGED <<peers, flight>>
\* All still to be decided are.
Over(i) ==
    /\ At(i, "fwd") /\ UNCHANGED peers
    /\ runs' = [runs EXCEPT ![i].pc = "over", ![i].left = {}]
    /\ LET xs == {<<p, runs[i].m>> : p \in runs[i].left} \ seen IN seen' = seen \cup xs /\ flight' = flight \cup xs
Hidden(i) == Mark(i) \/ Take(i) \/ Own(i) \/ Over(i)
Got(p, m) ==
    /\ LET x == <<p, m>> IN
       IF x \in flight THEN flight' = flight \ {x} /\ seen' = seen
       ELSE Undecided(p, m) /\ seen' = seen \cup {x} /\ flight' = flight
    /\ UNCHANGED <<peers, runs>>
Done(i) == At(i, "over") /\ runs' = [j \in DOMAIN runs \ {i} |-> runs[j]] /\ UNCHANGED <<peers, seen, flight>>
=============================================================================
