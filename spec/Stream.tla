-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* One direction of an established connection.  Callers hand over messages *)
(* concurrently; a writer takes all that is queued and puts it on the wire *)
(* as a batch of sealed frames; a reader takes frame after frame off the   *)
(* wire and gives messages to workers, which run the handlers.             *)
(*                                                                         *)
(* In between sits somebody without the session's secret, who may alter,   *)
(* truncate or drop what is on the wire, or add frames of his own.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Msgs,      \* messages, each sent at most once
          Workers,   \* number of workers of the receiver
          MaxBad     \* how many frames the adversary tampers with

VARIABLES calling,   \* messages whose send was called and has not returned
          queue,     \* handed over, not yet written
          wire,      \* frames under way: [m : message or "none", ok : BOOLEAN]
          taken,     \* taken by workers, being handled
          handled,   \* messages in the order in which handlers were called with them
          enqueued,  \* history: messages in the order in which they were handed over
          reader,    \* "run", or "end" when the receiver has given the connection up
          writer,    \* same for the sender
          bad        \* number of frames tampered with

vars == <<calling, queue, wire, taken, handled, enqueued, reader, writer, bad>>

Range(s) == {s[i] : i \in 1..Len(s)}
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

Init ==
    /\ calling = {} /\ queue = <<>> /\ wire = <<>> /\ taken = {} /\ handled = <<>> /\ enqueued = <<>>
    /\ reader = "run" /\ writer = "run" /\ bad = 0

Call(m) ==
    /\ m \notin calling /\ m \notin Range(enqueued)
    /\ calling' = calling \cup {m}
    /\ UNCHANGED <<queue, wire, taken, handled, enqueued, reader, writer, bad>>

\* The send takes effect.
Enqueue(m) ==
    /\ m \in calling /\ m \notin Range(enqueued)
    /\ writer = "run"
    /\ queue' = Append(queue, m)
    /\ enqueued' = Append(enqueued, m)
    /\ UNCHANGED <<calling, wire, taken, handled, reader, writer, bad>>

Return(m) ==
    /\ m \in calling /\ m \in Range(enqueued)
    /\ calling' = calling \ {m}
    /\ UNCHANGED <<queue, wire, taken, handled, enqueued, reader, writer, bad>>

\* A send that is refused.
Refuse(m) ==
    /\ m \in calling /\ m \notin Range(enqueued)
    /\ writer = "end"
    /\ calling' = calling \ {m}
    /\ UNCHANGED <<queue, wire, taken, handled, enqueued, reader, writer, bad>>

Flush ==
    /\ writer = "run" /\ queue # <<>>
    /\ wire' = wire \o [i \in 1..Len(queue) |-> [m |-> queue[i], ok |-> TRUE]]
    /\ queue' = <<>>
    /\ UNCHANGED <<calling, taken, handled, enqueued, reader, writer, bad>>

\* The adversary.  However he tampers with a frame, it does not open any more.
Alter(i) ==
    /\ bad < MaxBad /\ wire[i].ok
    /\ wire' = [wire EXCEPT ![i].ok = FALSE]
    /\ bad' = bad + 1
    /\ UNCHANGED <<calling, queue, taken, handled, enqueued, reader, writer>>

Inject(i) ==
    /\ bad < MaxBad
    /\ wire' = SubSeq(wire, 1, i) \o <<[m |-> "none", ok |-> FALSE]>> \o SubSeq(wire, i + 1, Len(wire))
    /\ bad' = bad + 1
    /\ UNCHANGED <<calling, queue, taken, handled, enqueued, reader, writer>>

Receive ==
    /\ reader = "run" /\ wire # <<>>
    /\ LET f == Head(wire) IN
       IF f.ok
          THEN /\ Cardinality(taken) < 2 * Workers  \* queued for, or with, the workers
               /\ taken' = taken \cup {[m |-> f.m, n |-> Cardinality(taken) + Len(handled)]}
               /\ UNCHANGED reader
          ELSE /\ reader' = "end"
               /\ UNCHANGED taken
    /\ wire' = Tail(wire)
    /\ UNCHANGED <<calling, queue, handled, enqueued, writer, bad>>

\* Workers take messages in order. With one worker they are handled in order, too.
Handle(m) ==
    /\ \E t \in taken :
          /\ t.m = m
          /\ Cardinality({u \in taken : u.n < t.n}) < Workers
          /\ taken' = taken \ {t}
    /\ handled' = Append(handled, m)
    /\ UNCHANGED <<calling, queue, wire, enqueued, reader, writer, bad>>

\* The connection is lost, for the one end or the other. What was taken off the wire is still handled.
LoseReader == reader = "run" /\ reader' = "end" /\ UNCHANGED <<calling, queue, wire, taken, handled, enqueued, writer, bad>>
LoseWriter == writer = "run" /\ writer' = "end" /\ UNCHANGED <<calling, queue, wire, taken, handled, enqueued, reader, bad>>

Next ==
    \/ \E m \in Msgs : Call(m) \/ Enqueue(m) \/ Return(m) \/ Refuse(m) \/ Handle(m)
    \/ Flush \/ Receive \/ LoseReader \/ LoseWriter
    \/ \E i \in 1..Len(wire) : Alter(i)
    \/ \E i \in 0..Len(wire) : Inject(i)

Fair == WF_vars(Flush) /\ WF_vars(Receive) /\ \A m \in Msgs : WF_vars(Handle(m)) /\ WF_vars(Enqueue(m)) /\ WF_vars(Return(m))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
\* Each message is handled at most once, and only if it was sent.
ExactlyOnce ==
    /\ \A i, j \in 1..Len(handled) : i # j => handled[i] # handled[j]
    /\ Range(handled) \subseteq Range(enqueued)

\* With one worker, what was handled is an initial part of what was sent.
InOrder == Workers = 1 => IsPrefix(handled, enqueued)

\* Nothing that was forged or tampered with gets that far.
Authentic == "none" \notin Range(handled) /\ \A t \in taken : t.m # "none"

\* What was received is an initial part of what was sent, whatever the workers do.
Received == Range(handled) \cup {t.m : t \in taken}
ReceivedPrefix == \E n \in 0..Len(enqueued) : Received = {enqueued[i] : i \in 1..n}

\* On a connection that stays up without interference everything arrives.
Lossless == [](\A m \in Msgs : (m \in Range(enqueued)) ~> (m \in Range(handled) \/ reader = "end" \/ writer = "end"))
=============================================================================
