------------------------------ MODULE Node_Trace ------------------------------
(***************************************************************************)
(* Checks what was recorded of a node whose callers and peers did          *)
(* something, or several things at once, and what was to be seen of the    *)
(* node when it had come to rest.  What is done is logged before.          *)
(***************************************************************************)
EXTENDS NodeObs, TraceBatch

CONSTANT Deviation  \* whether the pool of outbound connections has the size meant for the inbound one

VARIABLE replied    \* calls that a response was sent for
tvars == <<vars, replied, tr, l>>

Conf == Traces[tr].plan.cfg
TInit ==
    /\ BatchInit
    /\ InitWith(IF Deviation THEN [Conf EXCEPT !.maxout = Conf.maxin] ELSE Conf, 1..Traces[tr].plan.addrs, Steps(tr)[1].modes)
    /\ replied = {}

TFinish(id) ==
    \E c \in 1..Len(cn) : cn[c].j > 0 /\ Id(c) = id /\
        \/ Finish(c)
        \/ ~(cn[c].s = "hs" /\ cn[c].how = "stall") /\ cn[c].s # "new" /\ UNCHANGED vars
TDrop(id) ==
    \E c \in 1..Len(cn) : cn[c].j > 0 /\ Id(c) = id /\
        \/ Drop(c)
        \/ (cn[c].s \in Ended \/ cn[c].how = "lost") /\ UNCHANGED vars
        \* The remote end of an inbound connection may end it before it is accepted.
        \/ cn[c].s = "new" /\ cn' = [cn EXCEPT ![c].s = "dead", ![c].how = ""]
           /\ UNCHANGED <<cf, out, inn, calls, mode, acc, pf, quits, closed, closers, uses>>
\* A response may come too late.
TReply(i) ==
    /\ replied' = replied \cup {i}
    /\ \/ Reply(i)
       \/ ~(calls[i].s = "asked" /\ cn[calls[i].c].s = "up" /\ ~Traces[tr].plan.race) /\ calls[i].s # "try" /\ UNCHANGED vars

MatchCall(i, o) ==
    LET k == calls[i] IN
    /\ o.s = CallObs(k).s
    /\ o.s = "err" => o.e = k.e
    /\ o.s = "ok" /\ k.k = "ping" => o.id = Id(k.c)
MatchRcv(i, o) ==
    LET k == calls[i] IN
    \/ o = (IF k.rcv = 0 THEN 0 ELSE Id(k.rcv))
    \/ o = 0 /\ k.rcv # 0 /\ cn[k.rcv].s = "gone"
Match(o) ==
    LET e == Obs IN
    /\ o.out = e.out /\ o.inn = e.inn /\ o.con = e.con /\ o.dis = e.dis /\ o.live = e.live /\ o.acc = e.acc /\ o.ret = e.ret
    /\ \A i \in 1..Len(calls) : MatchCall(i, o.calls[i]) /\ MatchRcv(i, o.rcv[i])
    /\ \A a \in DOMAIN pf : pf[a] <= o.pf[a] /\ o.pf[a] <= pf[a] + quits[a]
    /\ \A i \in replied : calls[i].s # "asked"

\* The node looks as it is expected to look at rest, but a call may yet have to come by a connection that is there.
Nearly ==
    LET lag(k) == k.s = "try" \/ (k.s = "wait" /\ cn[k.c].s = "gone" /\ k.fresh /\ k.left > 1)
        open(c) == cn[c].s \in {"hs", "up"}
    IN \E S \in SUBSET {i \in 1..Len(calls) : lag(calls[i])} :
          /\ S # {} /\ \A i \in S : \E c \in 1..Len(cn) : cn[c].dir = "out" /\ cn[c].a = calls[i].a /\ open(c)
          /\ Rest(1..Len(calls) \ S)

R == UNCHANGED replied
TNext ==
    \/ IsEvent("setup") /\ UNCHANGED vars /\ R
    \/ IsEvent("call") /\ Call(Step.k, Step.a, Step.ctx) /\ R
    \/ IsEvent("endctx") /\ R /\ (IF calls[Step.i].ctx = "live" THEN EndCtx(Step.i) ELSE UNCHANGED vars)
    \/ IsEvent("mode") /\ SetMode(Step.a, Step.m) /\ R
    \/ IsEvent("finish") /\ TFinish(Step.id) /\ R
    \/ IsEvent("drop") /\ TDrop(Step.id) /\ R
    \/ IsEvent("reply") /\ TReply(Step.i)
    \/ IsEvent("dial") /\ Dialled(Step.how, Step.j) /\ R
    \/ IsEvent("close") /\ CallClose /\ R
    \/ IsEvent("closed") /\ closed /\ UNCHANGED vars /\ R
    \* Effects, logged after they have come about.
    \/ IsEvent("ret") /\ MatchCall(Step.i, Step.o) = TRUE /\ UNCHANGED vars /\ R
    \/ IsEvent("accepted") /\ acc[Step.a] >= Step.j /\ UNCHANGED vars /\ R
    \/ IsEvent("con") /\ (\E c \in 1..Len(cn) : cn[c].was /\ Id(c) = Step.id) /\ UNCHANGED vars /\ R
    \/ IsEvent("dis") /\ (\E c \in 1..Len(cn) : cn[c].s = "gone" /\ Id(c) = Step.id) /\ UNCHANGED vars /\ R
    \/ IsEvent("quiet") /\ (Quiet \/ (~Step.sure /\ Nearly)) = TRUE /\ Match(Step.obs) = TRUE /\ UNCHANGED vars /\ R
    \* After the node was closed: whether its port is free, and messages that were handled since it came to rest.
    \/ IsEvent("after") /\ Quiet = TRUE /\ closed /\ Step.portfree /\ Step.handled = 0 /\ Step.relisten = "err" /\ UNCHANGED vars /\ R
    \/ More /\ UNCHANGED <<tr, l>> /\ R /\ ((\E c \in 1..Len(cn) : Late(c)) \/ Internal)
TSpec == TInit /\ [][TNext]_tvars

\* What only ever grows must not outgrow what is to be seen when the node comes to rest next.
Feasible ==
    (\E k \in l..Len(Steps(tr)) : Steps(tr)[k].ev = "quiet") =>
    LET q == CHOOSE k \in l..Len(Steps(tr)) : Steps(tr)[k].ev = "quiet" /\ \A m \in l..(k - 1) : Steps(tr)[m].ev # "quiet"
        o == Steps(tr)[q].obs
    IN /\ \A a \in DOMAIN acc : acc[a] <= o.acc[a] /\ pf[a] <= o.pf[a]
       /\ \A i \in 1..Len(calls) :
             /\ calls[i].s \in {"ok", "err"} => MatchCall(i, o.calls[i])
             /\ calls[i].rcv # 0 => o.rcv[i] \in {0, Id(calls[i].rcv)}
             /\ (o.rcv[i] # 0 /\ calls[i].s \in {"ok", "err"}) => calls[i].rcv # 0
       /\ \A c \in 1..Len(cn) :
             /\ cn[c].was => \E i \in 1..Len(o.con) : o.con[i] = Id(c)
             /\ cn[c].dis => \E i \in 1..Len(o.dis) : o.dis[i] = Id(c)
             /\ cn[c].s \in Ended => ~\E i \in 1..Len(o.live) : cn[c].j # 0 /\ o.live[i] = Id(c)
\* The search for an explanation of a trace is given up at some point.
CONSTANT Budget
ASSUME \A t \in 1..NTraces : TLCSet(NTraces + t, 0)
Within == TLCSet(NTraces + tr, TLCGet(NTraces + tr) + 1) /\ TLCGet(NTraces + tr) <= Budget
Explored == Progress /\ Within /\ Feasible
Judged ==
    /\ \A t \in 1..NTraces :
          \/ TLCGet(t) = Len(Steps(t)) + 1
          \/ PrintT((IF TLCGet(NTraces + t) > Budget THEN "GAVEUP " ELSE "REJECT ") \o ToString(t) \o " " \o ToString(TLCGet(t)))
    /\ PrintT("BATCH " \o ToString(NTraces))

TView == <<tr, l, replied, cf, cn, out, inn, mode, acc, pf, quits, closed, closers,
           [i \in 1..Len(calls) |-> [calls[i] EXCEPT !.dials = 0]]>>
=============================================================================
