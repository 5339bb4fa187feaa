----------------------------- MODULE Stream_Trace -----------------------------
(***************************************************************************)
(* Checks recorded traffic of one direction of a connection.  Logged are   *)
(* calls and returns of sends, and calls of handlers.  In between, TLC     *)
(* finds the hidden steps: when a send took effect, flushing, receiving.   *)
(* As messages are first in, first out, sends took effect in the order in  *)
(* which messages arrived (order, put together from the trace, with one    *)
(* worker), and those of messages that never arrived came last.            *)
(***************************************************************************)
EXTENDS Stream, TraceBatch

VARIABLES enq,   \* number of messages of order that were enqueued
          lossy  \* whether the connection may have been lost
tvars == <<vars, enq, lossy, tr, l>>

Order == Traces[tr].plan.order      \* messages in the order of their arrival
Place == Traces[tr].plan.place      \* message -> its place in order, or 0
Senders == Traces[tr].plan.senders  \* for each sender, its messages in the order of its calls
Single == Traces[tr].plan.workers = 1
Silent == UNCHANGED <<tr, l>>

TInit == Init /\ BatchInit /\ enq = 0 /\ lossy = FALSE

\* The next message in order takes effect.
EnqueueNext ==
    /\ enq < Len(Order)
    /\ Enqueue(Order[enq + 1])
    /\ enq' = enq + 1

\* What must have taken effect when m returns, or is handled.
Needed(m) == IF Place[m] = 0 THEN Len(Order) ELSE Place[m]
MoreBefore(m) == enq < Needed(m) /\ Order[enq + 1] \in calling

\* With several workers the order of arrival is not known exactly: sends take effect when they return.
TReturn(m) ==
    \/ Single /\ MoreBefore(m) /\ Silent /\ EnqueueNext
    \/ Single /\ ~MoreBefore(m) /\ Place[m] = 0 /\ m \notin Range(enqueued) /\ Silent /\ Enqueue(m) /\ UNCHANGED enq
    \/ ~Single /\ m \notin Range(enqueued) /\ Silent /\ Enqueue(m) /\ UNCHANGED enq
    \/ (Single => (~MoreBefore(m) /\ (Place[m] # 0 => enq >= Place[m]))) /\ IsEvent("return") /\ Return(m) /\ UNCHANGED enq

IsTaken(m) == \E t \in taken : t.m = m
TDeliver(m) ==
    \/ IsTaken(m) /\ IsEvent("deliver") /\ Handle(m) /\ UNCHANGED enq
    \/ ~IsTaken(m) /\ Silent /\
          (\/ m \notin Range(enqueued) /\ (IF Single THEN EnqueueNext ELSE Enqueue(m) /\ UNCHANGED enq)
           \/ m \in Range(queue) /\ Flush /\ UNCHANGED enq
           \/ m \in {wire[i].m : i \in 1..Len(wire)} /\ Receive /\ UNCHANGED enq)

\* Several workers: any message that was received may be the next to be handled, so take them out of order.
TDeliverAny(m) ==
    \/ m \in calling /\ m \notin Range(enqueued) /\ Silent /\ Enqueue(m) /\ UNCHANGED enq
    \/ /\ m \in Range(enqueued) /\ m \in Range(queue)
       /\ queue' = SelectSeq(queue, LAMBDA x : x # m)
       /\ handled' = Append(handled, m)
       /\ IsEvent("deliver")
       /\ UNCHANGED <<calling, wire, taken, enqueued, reader, writer, bad, enq>>

\* A send is refused because the connection has been lost. Whatever took effect did so before that.
TRefuse(m) ==
    IF writer = "end" THEN IsEvent("refused") /\ Refuse(m) /\ UNCHANGED enq
    ELSE /\ lossy /\ Silent
         /\ IF Single /\ enq < Len(Order) THEN EnqueueNext
            ELSE \/ \E x \in calling \ {m} : x \notin Range(enqueued) /\ Enqueue(x) /\ UNCHANGED enq
                 \/ queue # <<>> /\ Single /\ Flush /\ UNCHANGED enq
                 \/ (queue = <<>> \/ ~Single) /\ LoseWriter /\ UNCHANGED enq

\* Of what a caller sent one after the other, an initial part was handled.
InitialPart == \A i \in 1..Len(Senders) :
    \A j \in 1..Len(Senders[i]) - 1 : Senders[i][j + 1] \in Range(handled) => Senders[i][j] \in Range(handled)

TNext ==
    /\ lossy' = (lossy \/ (More /\ Step.ev = "cut"))
    /\ \/ IsEvent("call") /\ Call(Step.m) /\ UNCHANGED enq
       \/ More /\ Step.ev = "return" /\ TReturn(Step.m)
       \/ More /\ Step.ev = "refused" /\ TRefuse(Step.m)
       \/ More /\ Step.ev = "deliver" /\ Step.m # 0 /\ (IF Single THEN TDeliver(Step.m) ELSE TDeliverAny(Step.m))
       \/ IsEvent("cut") /\ UNCHANGED <<vars, enq>>
       \/ /\ IsEvent("end") /\ calling = {}
          /\ IF Step.lost THEN InitialPart ELSE Len(handled) = Len(enqueued)
          /\ UNCHANGED <<vars, enq>>

TSpec == TInit /\ [][TNext]_tvars
Seen == <<calling, queue, wire, taken, Len(enqueued), Len(handled), enq, reader, writer, lossy, tr, l>>
=============================================================================
