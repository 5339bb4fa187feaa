----------------------------- MODULE Tamper_Trace -----------------------------
(* Checks what a node made of good and tampered frames against Stream. *)
EXTENDS Stream, TraceBatch
VARIABLE request   \* the request a dialling node has under way
tvars == <<vars, request, tr, l>>

TInit == Init /\ BatchInit /\ request = (IF Traces[tr].plan.role = "dial" THEN "pending" ELSE "none")

Idle == UNCHANGED <<tr, l>>

\* A good frame: called, handed over and flushed by the honest end of the line, in one go.
Sent(m) ==
    /\ enqueued' = Append(enqueued, m)
    /\ wire' = Append(wire, [m |-> m, ok |-> TRUE])
    /\ UNCHANGED <<calling, queue, taken, handled, reader, writer, bad, request>>

\* Silent: the node reads on and handles, and gives requests their answers.
TReceive ==
    /\ Idle /\ wire # <<>> /\ reader = "run"
    /\ IF Head(wire).m = "answer"
          THEN /\ request' = "got answer"
               /\ wire' = Tail(wire)
               /\ UNCHANGED <<calling, queue, taken, handled, enqueued, reader, writer, bad>>
          ELSE /\ Receive
               /\ request' = IF reader' = "end" /\ request = "pending" THEN "error" ELSE request
THandle == Idle /\ (\E t \in taken : Handle(t.m)) /\ UNCHANGED request

Agrees(o) ==
    /\ (wire = <<>> \/ reader = "end") /\ taken = {}
    /\ o.handled = Append(handled, "canary")
    /\ o.closed = (reader = "end")
    /\ o.error = (reader = "end")
    /\ o.request = request

TNext ==
    \/ IsEvent("send") /\ Sent(Step.m)
    \/ IsEvent("bad") /\ Inject(Len(wire)) /\ UNCHANGED request
    \/ IsEvent("end") /\ Agrees(Step) /\ UNCHANGED <<vars, request>>
    \/ (More /\ Step.ev = "end" /\ IF taken # {} THEN THandle ELSE TReceive)

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
