----------------------------- MODULE Notify_Trace -----------------------------
(***************************************************************************)
(* Checks what protocols and handlers of a node were told.  What is done   *)
(* is logged before, what is told when it is told.                         *)
(***************************************************************************)
EXTENDS Notify, TraceBatch
C == 1..Traces[tr].plan.conns
P == 1..Traces[tr].plan.protos
tvars == <<vars, tr, l>>
TInit == BatchInit /\ InitWith(C, P)
TNext ==
    \/ IsEvent("open") /\ (IF Step.ok THEN Open(Step.c) ELSE UNCHANGED vars)
    \/ IsEvent("push") /\ Push(Step.c, Step.kind, Step.n)
    \/ IsEvent("send") /\ Send(Step.c)
    \/ IsEvent("over") /\ Over(Step.c, Step.how)
    \/ IsEvent("con") /\ Step.c \in C /\ Con(Step.c, Step.p)
    \/ IsEvent("recv") /\ Step.c \in C /\ Recv(Step.c, Step.p)
    \/ IsEvent("dis") /\ Step.c \in C /\ Dis(Step.c, Step.p)
    \/ IsEvent("sent") /\ Step.c \in C /\ Sent(Step.c, Step.p)
    \/ IsEvent("hand") /\ Step.c \in C /\ Handle(Step.c, Step.kind)
    \/ IsEvent("quiet") /\ Quiet(C) /\ UNCHANGED vars
    \/ More /\ UNCHANGED <<tr, l>> /\ \E c \in C : Establish(c, P) \/ Read(c, P) \/ End(c, P) \/ Flush(c, P) \/ Drop(c)
TSpec == TInit /\ [][TNext]_tvars
TView == <<tr, l, good, reader, inbox, queue, outbox, wleft, over>>
=============================================================================
