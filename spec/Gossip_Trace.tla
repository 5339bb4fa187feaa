----------------------------- MODULE Gossip_Trace -----------------------------
(***************************************************************************)
(* Checks what one node was seen to take up and to pass on, of one message *)
(* at a time.  What can't be seen to happen is done as soon as it makes    *)
(* nothing impossible that is still to come in the trace, so that there is *)
(* nothing to search:                                                      *)
(* - A peer that gives what it is still to get must not be marked before   *)
(*   somebody is about to pass it on; any other is marked at once.         *)
(* - What is still to be taken up is taken by a run of that peer, and a    *)
(*   push has to wait for that.  Otherwise nothing is lost by having it.   *)
(* - A run is over when all those still to be decided are to get it.       *)
(***************************************************************************)
EXTENDS Gossip, FiniteSetsExt, TraceBatch
tvars == <<gvars, tr, l>>
TInit == BatchInit /\ GInit

ToCome == {k \in l..Len(Steps(tr)) : TRUE}
WillGet(p, m) == \E k \in ToCome : LET s == Steps(tr)[k] IN s.ev = "got" /\ s.p = p /\ s.m = m
WillTake(m) == \E k \in ToCome : LET s == Steps(tr)[k] IN s.ev = "took" /\ s.m = m
Taker(m) == LET ks == {k \in ToCome : Steps(tr)[k].ev = "took" /\ Steps(tr)[k].m = m} IN Steps(tr)[Min(ks)].p

Ripe(i) ==
    LET p == runs[i].p  m == runs[i].m IN
    CASE At(i, "new") -> <<p, m>> \in seen \/ ~WillGet(p, m) \/ Undecided(p, m)
      [] At(i, "marked") -> Takes /\ (<<0, m>> \in seen \/ (WillTake(m) /\ Taker(m) = p))
      [] At(i, "push") -> ~Takes \/ <<0, m>> \in seen \/ ~WillTake(m)
      [] At(i, "fwd") -> \A q \in runs[i].left : <<q, m>> \in seen \/ WillGet(q, m)
      [] OTHER -> FALSE
Some(S) == CHOOSE i \in S : \A j \in S : i <= j
MarkAs(i) == /\ Mark(i)
             /\ LET x == <<runs[i].p, runs[i].m>> IN (flight' = IF x \notin seen /\ WillGet(x[1], x[2]) THEN flight \cup {x} ELSE flight)
Do(i) == MarkAs(i) \/ Take(i) \/ Own(i) \/ Over(i)

Of(p, m, pcs) == {i \in DOMAIN runs : runs[i].p = p /\ runs[i].m = m /\ runs[i].pc \in pcs}
\* Which run of the peer with that message it is does not matter.
TakenUp(S) == S # {} /\ Took(Some(S))
Handled(S, T) == IF S # {} THEN Done(Some(S))
                 ELSE T # {} /\ runs' = [j \in DOMAIN runs \ {Some(T)} |-> runs[j]] /\ UNCHANGED <<peers, seen, flight>>
Seen ==
    \/ IsEvent("join") /\ Join(Step.p)
    \/ IsEvent("leave") /\ Leave(Step.p)
    \/ IsEvent("give") /\ Give(Step.i, Step.p, Step.m)
    \/ IsEvent("push") /\ Push(Step.i, Step.m)
    \/ IsEvent("took") /\ TakenUp(Of(Step.p, Step.m, {"take"} \cup IF Takes THEN {} ELSE {"marked"}))
    \/ IsEvent("handled") /\ Handled(Of(Step.p, Step.m, {"over"}), IF Takes THEN {} ELSE Of(Step.p, Step.m, {"marked"}))
    \/ IsEvent("pushed") /\ Step.i \in DOMAIN runs /\ Done(Step.i)
    \/ IsEvent("got") /\ Got(Step.p, Step.m)
    \/ IsEvent("end") /\ (runs = <<>> /\ flight = {}) = TRUE /\ UNCHANGED gvars
TNext ==
    LET S == {i \in DOMAIN runs : Ripe(i)} IN
    IF More /\ S # {} THEN Do(Some(S)) /\ UNCHANGED <<tr, l>> ELSE Seen
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
