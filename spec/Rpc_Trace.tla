------------------------------ MODULE Rpc_Trace ------------------------------
(***************************************************************************)
(* Checks recorded conversations of a node that makes requests over        *)
(* connections to raw peers.  A step that causes something is logged       *)
(* before it is done, one that shows an effect after it has come about.    *)
(***************************************************************************)
EXTENDS Rpc, TraceBatch

VARIABLES may,     \* connections that something was done to which ends them
          closed,  \* connections that were seen to have ended
          handled  \* what handlers were called with
tvars == <<vars, may, closed, handled, tr, l>>
Silent == UNCHANGED <<tr, l>>
Rest == UNCHANGED <<may, closed, handled>>

TInit == BatchInit /\ InitWith(1..Traces[tr].plan.nreqs, 1..Traces[tr].plan.conns) /\ may = {} /\ closed = {} /\ handled = {}

\* The request was seen to arrive at the peer: it was sent before. It may even have been before the connection was lost.
Seen(r, c, n) ==
    /\ rq[r].s # "idle" /\ rq[r].c = None
    /\ n # 0 /\ n \notin InUse(c)
    /\ rq' = [rq EXCEPT ![r].c = c, ![r].n = n, ![r].waits = TRUE]
    /\ lastn' = [lastn EXCEPT ![c] = n]
    /\ seen' = seen \cup {r}
    /\ UNCHANGED <<up, down, tried, ans, conn, surf>>

\* A request that was not seen at the peer may have failed before the connection, which was about to be lost, was.
TErr(r, c) ==
    \/ rq[r].c = None /\ (c \in may \/ rq[r].gaveup) /\ IsEvent("err") /\ Fail(r) /\ Rest
    \/ rq[r].c # None /\ CanFail(r) /\ IsEvent("err") /\ ReturnErr(r) /\ Rest
    \/ rq[r].c # None /\ ~CanFail(r) /\ c \in may /\ conn[c] = "up" /\ Silent /\ (Receive(c) \/ Lose(c)) /\ Rest

TOk(r, a) ==
    \/ rq[r].got # <<>> /\ IsEvent("ok") /\ rq[r].got = a /\ ReturnOk(r) /\ Rest
    \/ rq[r].got = <<>> /\ rq[r].c # None /\ Silent /\ Receive(rq[r].c) /\ Rest

TSurf(c, a) ==
    \/ a \in surf /\ a \notin handled /\ IsEvent("surf") /\ handled' = handled \cup {a} /\ UNCHANGED <<vars, may, closed>>
    \/ a \notin surf /\ Silent /\ Receive(c) /\ Rest

\* Everything has come to rest. Nothing is left waiting, and what came in over connections that are up was handled,
\* except perhaps for responses that nobody asked for.
TEnd ==
    \/ \E c \in DOMAIN conn : c \notin may /\ down[c] # <<>> /\ Silent /\ Receive(c) /\ Rest
    \/ /\ \A c \in DOMAIN conn : c \notin may => down[c] = <<>>
       /\ \A r \in DOMAIN rq : ~Open(r)
       /\ \A a \in surf : a \notin handled => Len(a) = 1 /\ a[1] \in {"dup", "unasked"}
       /\ IsEvent("end") /\ UNCHANGED vars /\ Rest

TNext ==
    \/ IsEvent("issue") /\ Issue(Step.r) /\ Rest
    \/ IsEvent("seen") /\ Seen(Step.r, Step.c, Step.n) /\ Rest
    \/ IsEvent("answer") /\ Attempt(Step.r, 1) /\ Rest
    \/ IsEvent("dup") /\ Step.r \in seen /\ Fake(Step.c, rq[Step.r].n, <<"dup">>) /\ Rest
    \/ IsEvent("unasked") /\ Fake(Step.c, Step.n, <<"unasked">>) /\ Rest
    \/ IsEvent("msg") /\ Message(Step.c, Step.m) /\ Rest
    \/ IsEvent("cancel") /\ (IF Open(Step.r) THEN GiveUp(Step.r) ELSE UNCHANGED vars) /\ Rest
    \/ IsEvent("lose") /\ may' = may \cup {Step.c} /\ UNCHANGED <<vars, closed, handled>>
    \/ IsEvent("closed") /\ Step.c \in may /\ closed' = closed \cup {Step.c} /\ UNCHANGED <<vars, may, handled>>
    \* A send over a connection that something was held of.
    \/ IsEvent("held") /\ (Step.ok => Step.c \notin closed) /\ (~Step.ok => Step.c \in may) /\ UNCHANGED vars /\ Rest
    \/ More /\ Step.ev = "ok" /\ TOk(Step.r, Step.a)
    \/ More /\ Step.ev = "err" /\ TErr(Step.r, Step.c)
    \/ More /\ Step.ev = "surf" /\ (TSurf(Step.c, Step.a) \/ (Len(Step.a) = 1 /\ Step.a \in handled /\ Step.a[1] \in {"dup", "unasked"} /\ IsEvent("surf") /\ UNCHANGED vars /\ Rest))
    \* Very many requests that were each answered before long, none of them with a number that is still waited for.
    \/ IsEvent("bulk") /\ Step.wrong = 0 /\ Step.failed = 0 /\ Step.clash = 0 /\ UNCHANGED vars /\ Rest
    \/ More /\ Step.ev = "end" /\ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
