------------------------------ MODULE Tamper_Gen ------------------------------
(* Sequences of good frames with a tampered one among them, from Stream, as plans for the driver. *)
EXTENDS Stream, Json
CONSTANTS Kinds, Depth
VARIABLES hist, role
GInit == Init /\ hist = <<>> /\ role \in {"dial", "accept"}

Names == <<"m1", "m2", "m3", "m4">>

\* A good frame: a message, or, once, the answer to the request that a dialling node has under way.
Good(m) ==
    /\ Len(hist) < Depth
    /\ m = "answer" => role = "dial"
    /\ wire' = Append(wire, [m |-> m, ok |-> TRUE])
    /\ enqueued' = Append(enqueued, m)
    /\ hist' = Append(hist, [ev |-> "send", m |-> m])
    /\ UNCHANGED <<calling, queue, taken, handled, reader, writer, bad>>
GoodAny == LET used == Cardinality({i \in 1..Len(enqueued) : enqueued[i] # "answer"}) IN
           \/ Good(Names[used + 1])
           \/ "answer" \notin Range(enqueued) /\ Good("answer")
Bad(k) ==
    /\ Len(hist) < Depth
    /\ \E of \in {"msg"} \cup (IF role = "dial" /\ "answer" \notin Range(enqueued) THEN {"answer"} ELSE {}) :
       hist' = Append(hist, [ev |-> "bad", kind |-> k, of |-> of, at |-> 0 - 1])
    /\ bad < MaxBad
    /\ wire' = Append(wire, [m |-> "none", ok |-> FALSE])
    /\ bad' = bad + 1
    /\ UNCHANGED <<calling, queue, taken, handled, enqueued, reader, writer>>
GNext == (GoodAny \/ \E k \in Kinds : Bad(k)) /\ UNCHANGED role
GSpec == GInit /\ [][GNext]_<<vars, hist, role>>

FirstBad == IF \E i \in 1..Len(wire) : ~wire[i].ok THEN CHOOSE i \in 1..Len(wire) : ~wire[i].ok /\ \A j \in 1..(i - 1) : wire[j].ok
            ELSE Len(wire) + 1
Expected == SelectSeq([i \in 1..(FirstBad - 1) |-> wire[i].m], LAMBDA m : m # "answer")
Emit == (hist # <<>> /\ (bad > 0 \/ Len(hist) = Depth)) => PrintT("PLAN " \o ToJson([role |-> role, steps |-> hist, handled |-> Expected]))
=============================================================================
