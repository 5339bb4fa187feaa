-------------------------------- MODULE Notify --------------------------------
(***************************************************************************)
(* What the protocols registered with a node are told about connections:   *)
(* that one is there, that something was received or sent, that it is      *)
(* gone.  A connection has a reader, which raises all but the notices of   *)
(* things sent, and a writer.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Conns, Protos
VARIABLES
    good,   \* connections whose handshake can be completed
    reader, \* connection -> [at, left]: what the reader is at, and the protocols that are yet to be told so
    inbox,  \* connection -> what is on its way to the reader: "msg", "ask" (to be answered by a handler) or "resp"
    queue,  \* connection -> [kind -> number of messages handed over to the handlers, not handled yet]
    outbox, \* connection -> number of messages that are waiting to be written
    wleft,  \* connection -> protocols yet to be told of a flush
    over,   \* connection -> "no", "drained": it ends after what is on its way, "any": it ends any time
    told    \* connection -> how often each protocol was told what of it, and how often handlers (0) were called
Kinds == {"con", "recv", "sent", "dis", "hand"}
vars == <<good, reader, inbox, queue, outbox, wleft, over, told>>

InitWith(C, P) ==
    /\ good = {}
    /\ reader = [c \in C |-> [at |-> "off", left |-> {}]]
    /\ inbox = [c \in C |-> <<>>] /\ queue = [c \in C |-> [msg |-> 0, ask |-> 0]]
    /\ outbox = [c \in C |-> 0] /\ wleft = [c \in C |-> {}] /\ over = [c \in C |-> "no"]
    /\ told = [c \in C |-> [k \in Kinds |-> [p \in P \cup {0} |-> 0]]]
Tell(c, k, p) == told' = [told EXCEPT ![c][k][p] = @ + 1]

-----------------------------------------------------------------------------
Establish(c, P) ==
    /\ reader[c].at = "off" /\ c \in good
    /\ reader' = [reader EXCEPT ![c] = [at |-> "con", left |-> P]]
    /\ UNCHANGED <<good, inbox, queue, outbox, wleft, over, told>>
\* The reader tells a protocol of what it is at; having told all of them, it goes on.
TellOf(c, p, at, next) ==
    /\ reader[c].at = at /\ p \in reader[c].left
    /\ LET left == reader[c].left \ {p} IN
       reader' = [reader EXCEPT ![c] = [at |-> IF left = {} THEN next ELSE at, left |-> left]]
    /\ Tell(c, at, p)
    /\ UNCHANGED <<good, inbox, queue, outbox, wleft, over>>
Con(c, p) == TellOf(c, p, "con", "idle")
Recv(c, p) == TellOf(c, p, "recv", "idle")
Dis(c, p) == TellOf(c, p, "dis", "done")
Read(c, P) ==
    /\ reader[c].at = "idle" /\ inbox[c] # <<>>
    /\ LET k == inbox[c][1] IN
       queue' = IF k = "resp" THEN queue ELSE [queue EXCEPT ![c][k] = @ + 1]
    /\ inbox' = [inbox EXCEPT ![c] = Tail(@)]
    /\ reader' = [reader EXCEPT ![c] = [at |-> "recv", left |-> P]]
    /\ UNCHANGED <<good, outbox, wleft, over, told>>
End(c, P) ==
    /\ reader[c].at = "idle" /\ over[c] # "no" /\ (over[c] = "drained" => inbox[c] = <<>>)
    /\ reader' = [reader EXCEPT ![c] = [at |-> "dis", left |-> P]]
    /\ inbox' = [inbox EXCEPT ![c] = <<>>]
    /\ UNCHANGED <<good, queue, outbox, wleft, over, told>>
Handle(c, k) ==
    /\ queue[c][k] > 0
    /\ queue' = [queue EXCEPT ![c][k] = @ - 1]
    /\ outbox' = IF k = "ask" THEN [outbox EXCEPT ![c] = @ + 1] ELSE outbox
    /\ Tell(c, "hand", 0)
    /\ UNCHANGED <<good, reader, inbox, wleft, over>>
\* What has accumulated is flushed together.
Flush(c, P) ==
    /\ reader[c].at \notin {"off", "con"} /\ outbox[c] > 0 /\ wleft[c] = {}
    /\ \E k \in 0..outbox[c]-1 : outbox' = [outbox EXCEPT ![c] = k]
    /\ wleft' = [wleft EXCEPT ![c] = P]
    /\ UNCHANGED <<good, reader, inbox, queue, over, told>>
Sent(c, p) ==
    /\ p \in wleft[c]
    /\ wleft' = [wleft EXCEPT ![c] = @ \ {p}]
    /\ Tell(c, "sent", p)
    /\ UNCHANGED <<good, reader, inbox, queue, outbox, over>>
\* What can no longer be written is dropped.
Drop(c) ==
    /\ over[c] # "no" /\ outbox[c] > 0
    /\ outbox' = [outbox EXCEPT ![c] = 0]
    /\ UNCHANGED <<good, reader, inbox, queue, wleft, over, told>>

Internal(C, P) == \E c \in C :
    \/ Establish(c, P) \/ Read(c, P) \/ End(c, P) \/ Flush(c, P) \/ Drop(c)
    \/ \E p \in P : Con(c, p) \/ Recv(c, p) \/ Dis(c, p) \/ Sent(c, p)
    \/ \E k \in {"msg", "ask"} : Handle(c, k)

Open(c) ==
    /\ good' = good \cup {c}
    /\ UNCHANGED <<reader, inbox, queue, outbox, wleft, over, told>>
Push(c, k, n) ==
    /\ inbox' = [inbox EXCEPT ![c] = @ \o [i \in 1..n |-> k]]
    /\ UNCHANGED <<good, reader, queue, outbox, wleft, over, told>>
Send(c) ==
    /\ outbox' = [outbox EXCEPT ![c] = @ + 1]
    /\ UNCHANGED <<good, reader, inbox, queue, wleft, over, told>>
Over(c, how) ==
    /\ over' = [over EXCEPT ![c] = IF @ = "any" THEN "any" ELSE how]
    /\ UNCHANGED <<good, reader, inbox, queue, outbox, wleft, told>>

Quiet(C) == \A c \in C :
    /\ reader[c].at \in {"off", "done"} \/ (reader[c].at = "idle" /\ inbox[c] = <<>> /\ over[c] = "no")
    /\ reader[c].at = "off" => c \notin good \/ over[c] = "any"
    /\ queue[c] = [msg |-> 0, ask |-> 0]
    /\ over[c] = "no" => outbox[c] = 0 /\ wleft[c] = {}

-----------------------------------------------------------------------------
\* Told once that it is there, before anything else; told once that it is gone, after all that was received.
Once == \A c \in Conns, p \in Protos :
    /\ told[c]["con"][p] <= 1 /\ told[c]["dis"][p] <= 1
    /\ \A k \in Kinds \ {"con"}, q \in Protos \cup {0} : told[c][k][q] > 0 => told[c]["con"][p] = 1
DisLast == [][\A c \in Conns, p \in Protos : told[c]["dis"][p] = 1 => told'[c]["recv"][p] = told[c]["recv"][p]]_told
\* At rest, who was told of a connection was also told of its end, if it has ended, and all were told the same.
Paired == Quiet(Conns) => \A c \in Conns, p, q \in Protos :
    /\ (told[c]["con"][p] = 1 /\ over[c] # "no") <=> told[c]["dis"][p] = 1
    /\ \A k \in {"con", "dis", "recv"} \cup (IF wleft[c] = {} THEN {"sent"} ELSE {}) : told[c][k][p] = told[c][k][q]
    /\ told[c]["hand"][0] <= told[c]["recv"][p]
\* Without a handshake, nothing.
NoHandshake == \A c \in Conns \ good, k \in Kinds, p \in Protos \cup {0} : told[c][k][p] = 0
=============================================================================
