--------------------------------- MODULE Node ---------------------------------
(***************************************************************************)
(* The connections of a node: the pools of outbound and inbound ones, the  *)
(* calls (ping, send, request) that share, set up and wait for outbound    *)
(* ones, and closing the node.                                             *)
(*                                                                         *)
(* Actions come in two kinds: steps of the node, which it takes on its     *)
(* own accord, and what its environment does: callers, peers, the network. *)
(* A state is quiet if the node has nothing left to do.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
    cf,     \* configuration: [maxout, maxin, attempts, listens]
    cn,     \* connections, in the order of their creation:
            \*   [dir : "out"/"in", a : address, j : number at the peer's end or 0, s : state, was : connected was notified,
            \*    dis : disconnected was notified, how : what the remote end does: "up" or "stall", or "lost" if it is over, or ""]
            \*   states: "new" inbound, not accepted yet; "dial" no transport yet; "hs" handshaking; "up"; "dead" ended,
            \*   something of it is left; "gone"
    out,    \* pool of outbound connections, most recently used first
    inn,    \* pool of inbound connections, latest first
    calls,  \* calls in the order they were made: [k : kind, a, s : state, c : connection, left : attempts left,
            \*   own : it is the one that set c up, fresh : its context was live when it came by c, e : error, ctx : "live"/"ended", rcv : connection its message arrived on, dials]
            \*   states: "try", "wait", "asked", "quit", "ok", "err"
    mode,   \* address -> what a peer there does with a connection: "up", "stall", "fail", or "refuse";
            \*   or "fail2", "fail1" for two or one that fail before one comes up
    acc,    \* address -> number of connections accepted there
    pf,     \* address -> number of ping failed notifications
    quits,  \* address -> number of calls that gave up a connection they were setting up, which may be notified as well
    closed, \* whether the node is closed
    closers,\* calls of Close: [s : "call" or "ret"]
    uses    \* history of the uses of outbound connections
vars == <<cf, cn, out, inn, calls, mode, acc, pf, quits, closed, closers, uses>>

Live == {"dial", "hs", "up"}
Ended == {"dead", "gone"}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Range(s) == {s[i] : i \in 1..Len(s)}
After(m) == CASE m = "fail2" -> "fail1" [] m = "fail1" -> "up" [] OTHER -> m
PoolOf(a) == {c \in Range(out) : cn[c].a = a}

InitWith(config, A, m) ==
    /\ cf = config /\ cn = <<>> /\ out = <<>> /\ inn = <<>> /\ calls = <<>>
    /\ mode = m /\ acc = [a \in A |-> 0] /\ pf = [a \in A |-> 0] /\ quits = [a \in A |-> 0]
    /\ closed = FALSE /\ closers = <<>> /\ uses = <<>>

-----------------------------------------------------------------------------
(* Steps of the node.                                                      *)

\* A call looks for a connection to its address in the pool, or puts one there, in the place of the least recently
\* used one if the pool is full.
Get(i) ==
    /\ calls[i].s = "try"
    /\ LET a == calls[i].a IN
       IF closed
          THEN /\ calls' = [calls EXCEPT ![i].s = "err", ![i].e = "other"]
               /\ UNCHANGED <<cn, out, uses>>
       ELSE IF PoolOf(a) # {}
          THEN LET c == CHOOSE c \in PoolOf(a) : TRUE IN
               /\ out' = <<c>> \o Without(out, c)
               /\ calls' = [calls EXCEPT ![i].s = "wait", ![i].c = c, ![i].own = FALSE, ![i].fresh = (calls[i].ctx = "live")]
               /\ uses' = Append(uses, c)
               /\ UNCHANGED cn
          ELSE LET full == Len(out) >= cf.maxout
                   last == out[Len(out)]
                   kept == IF full THEN SubSeq(out, 1, Len(out) - 1) ELSE out
                   c == Len(cn) + 1
               IN /\ out' = <<c>> \o kept
                  /\ cn' = Append(IF full /\ cn[last].s \in Live THEN [cn EXCEPT ![last].s = "dead"] ELSE cn,
                                  [dir |-> "out", a |-> a, j |-> 0, s |-> "dial", was |-> FALSE, dis |-> FALSE, how |-> ""])
                  /\ calls' = [calls EXCEPT ![i].s = "wait", ![i].c = c, ![i].own = TRUE, ![i].dials = @ + 1,
                                               ![i].fresh = (calls[i].ctx = "live")]
                  /\ uses' = Append(uses, c)
    /\ UNCHANGED <<cf, inn, mode, acc, pf, quits, closed, closers>>

\* The connection reaches the peer, who does with it what he does.
Reach(c) ==
    /\ cn[c].dir = "out" /\ cn[c].s = "dial"
    /\ LET a == cn[c].a IN
       IF mode[a] = "refuse"
          THEN cn' = [cn EXCEPT ![c].s = "dead"] /\ UNCHANGED <<acc, mode>>
          ELSE /\ acc' = [acc EXCEPT ![a] = @ + 1]
               /\ mode' = [mode EXCEPT ![a] = After(@)]
               /\ cn' = [cn EXCEPT ![c].j = acc[a] + 1,
                                   ![c].s = IF mode[a] \in {"up", "stall"} THEN "hs" ELSE "dead",
                                   ![c].how = IF mode[a] \in {"up", "stall"} THEN mode[a] ELSE ""]
    /\ UNCHANGED <<cf, out, inn, calls, pf, quits, closed, closers, uses>>

\* The handshake is completed, perhaps when the connection has been ended already; that is what it is good for then.
Establish(c) ==
    /\ cn[c].how = "up" /\ ~cn[c].was
    /\ \/ cn[c].s = "hs" /\ cn' = [cn EXCEPT ![c].s = "up", ![c].was = TRUE]
       \/ cn[c].s = "dead" /\ cn' = [cn EXCEPT ![c].was = TRUE]
    /\ UNCHANGED <<cf, out, inn, calls, mode, acc, pf, quits, closed, closers, uses>>

\* The node learns that a connection has been ended.
Lost(c) ==
    /\ cn[c].s \in {"hs", "up"} /\ cn[c].how = "lost"
    /\ cn' = [cn EXCEPT ![c].s = "dead"]
    /\ UNCHANGED <<cf, out, inn, calls, mode, acc, pf, quits, closed, closers, uses>>

\* Whoever sets a connection up does so under his context: once that has ended, it may not get anywhere.
Abort(c) ==
    /\ cn[c].dir = "out" /\ cn[c].s = "dial"
    /\ \E i \in 1..Len(calls) : calls[i].c = c /\ calls[i].own /\ calls[i].ctx = "ended"
    /\ cn' = [cn EXCEPT ![c].s = "dead"]
    /\ UNCHANGED <<cf, out, inn, calls, mode, acc, pf, quits, closed, closers, uses>>

\* The connection a call waits for is there, or was for a moment.
Ready(i) ==
    /\ calls[i].s = "wait" /\ cn[calls[i].c].was
    /\ LET up == cn[calls[i].c].s = "up" IN
       \/ calls' = [calls EXCEPT ![i].s = IF calls[i].k = "req" THEN "asked" ELSE "ok",
                                 ![i].rcv = IF up /\ calls[i].k # "ping" THEN calls[i].c ELSE 0]
       \/ ~up /\ calls[i].k # "ping" /\ calls' = [calls EXCEPT ![i].s = "err", ![i].e = "other"]
    /\ UNCHANGED <<cf, cn, out, inn, mode, acc, pf, quits, closed, closers, uses>>

\* It could not be set up, or is over again: another attempt, or the end of it.
Retry(i) ==
    /\ calls[i].s = "wait" /\ cn[calls[i].c].s = "gone" /\ calls[i].fresh
    /\ IF calls[i].left > 1
          THEN /\ calls' = [calls EXCEPT ![i].s = "try", ![i].left = @ - 1]
               /\ UNCHANGED pf
          ELSE /\ calls' = [calls EXCEPT ![i].s = "err", ![i].left = 0, ![i].e = "other"]
               /\ pf' = [pf EXCEPT ![calls[i].a] = @ + 1]
    /\ UNCHANGED <<cf, cn, out, inn, mode, acc, quits, closed, closers, uses>>

\* The context of a call has ended. It takes the connection it was setting up with it, and nothing else.
GiveUp(i) ==
    /\ calls[i].s = "wait" /\ calls[i].ctx = "ended"
    /\ LET c == calls[i].c IN
       \/ /\ calls[i].own /\ (cn[c].was => cn[c].s \in Ended)
          /\ calls' = [calls EXCEPT ![i].s = "quit"]
          /\ cn' = IF cn[c].s \in Live THEN [cn EXCEPT ![c].s = "dead"] ELSE cn
       \/ /\ calls[i].own => cn[c].was
          /\ calls' = [calls EXCEPT ![i].s = "err", ![i].e = "ctx"]
          /\ UNCHANGED cn
    /\ UNCHANGED <<cf, out, inn, mode, acc, pf, quits, closed, closers, uses>>

Quit(i) ==
    /\ calls[i].s = "quit" /\ cn[calls[i].c].s = "gone"
    /\ calls' = [calls EXCEPT ![i].s = "err", ![i].e = "ctx"]
    /\ quits' = [quits EXCEPT ![calls[i].a] = @ + 1]
    /\ UNCHANGED <<cf, cn, out, inn, mode, acc, pf, closed, closers, uses>>

\* A request that is waiting for its response ends early.
Unanswered(i) ==
    /\ calls[i].s = "asked"
    /\ \/ calls[i].ctx = "ended" /\ calls' = [calls EXCEPT ![i].s = "err", ![i].e = "ctx"]
       \/ cn[calls[i].c].s \in Ended /\ calls' = [calls EXCEPT ![i].s = "err", ![i].e = "other"]
    /\ UNCHANGED <<cf, cn, out, inn, mode, acc, pf, quits, closed, closers, uses>>

\* Clearing up after a connection that has ended.
Remove(c) ==
    /\ cn[c].s = "dead"
    /\ cn' = [cn EXCEPT ![c].s = "gone", ![c].dis = cn[c].was]
    /\ out' = Without(out, c) /\ inn' = Without(inn, c)
    /\ UNCHANGED <<cf, calls, mode, acc, pf, quits, closed, closers, uses>>

\* The node accepts a connection, in the place of the least recently accepted one if the pool is full.
Accept(c) ==
    /\ cn[c].s = "new"
    /\ IF closed \/ ~cf.listens
          THEN cn' = [cn EXCEPT ![c].s = "dead", ![c].how = ""] /\ UNCHANGED inn
          ELSE LET full == Len(inn) >= cf.maxin
                   last == inn[Len(inn)]
                   kept == IF full THEN SubSeq(inn, 1, Len(inn) - 1) ELSE inn
                   evict == IF full /\ cn[last].s \in Live THEN [cn EXCEPT ![last].s = "dead"] ELSE cn
               IN /\ inn' = <<c>> \o kept
                  /\ cn' = [evict EXCEPT ![c].s = "hs"]
    /\ UNCHANGED <<cf, out, calls, mode, acc, pf, quits, closed, closers, uses>>

\* Closing the node ends all connections.
DoClose ==
    /\ closers # <<>> /\ ~closed
    /\ closed' = TRUE
    /\ cn' = [c \in 1..Len(cn) |-> IF cn[c].s \in Live THEN [cn[c] EXCEPT !.s = "dead"] ELSE cn[c]]
    /\ out' = <<>> /\ inn' = <<>>
    /\ UNCHANGED <<cf, calls, mode, acc, pf, quits, closers, uses>>
CloseReturns(i) ==
    /\ closed /\ closers[i] = "call"
    /\ closers' = [closers EXCEPT ![i] = "ret"]
    /\ UNCHANGED <<cf, cn, out, inn, calls, mode, acc, pf, quits, closed, uses>>

\* A connection that has ended before it reached the peer may still do so; nothing comes of it.
Late(c) ==
    /\ cn[c].dir = "out" /\ cn[c].s \in Ended /\ cn[c].j = 0 /\ mode[cn[c].a] # "refuse"
    /\ acc' = [acc EXCEPT ![cn[c].a] = @ + 1]
    /\ cn' = [cn EXCEPT ![c].j = acc[cn[c].a] + 1]
    /\ mode' = [mode EXCEPT ![cn[c].a] = After(@)]
    /\ UNCHANGED <<cf, out, inn, calls, pf, quits, closed, closers, uses>>

CallSteps(i) == Get(i) \/ Ready(i) \/ Retry(i) \/ GiveUp(i) \/ Quit(i) \/ Unanswered(i)
ConnSteps(c) == Reach(c) \/ Establish(c) \/ Lost(c) \/ Abort(c) \/ Remove(c) \/ Accept(c)
Internal ==
    \/ \E i \in 1..Len(calls) : CallSteps(i)
    \/ \E c \in 1..Len(cn) : ConnSteps(c)
    \/ DoClose \/ \E i \in 1..Len(closers) : CloseReturns(i)

\* Nothing left to do, as far as these calls are concerned.
Rest(I) ==
    /\ \A i \in I : LET k == calls[i] IN
          \/ k.s \in {"ok", "err"}
          \/ k.s = "wait" /\ k.ctx = "live" /\ cn[k.c].s = "hs" /\ cn[k.c].how = "stall"
          \/ k.s = "asked" /\ k.ctx = "live" /\ cn[k.c].s = "up"
    /\ \A c \in 1..Len(cn) : cn[c].s = "gone" \/ (cn[c].s = "up" /\ cn[c].how # "lost") \/ (cn[c].s = "hs" /\ cn[c].how = "stall")
    /\ closers # <<>> => closed
    /\ \A i \in 1..Len(closers) : closers[i] = "ret"
Quiet == Rest(1..Len(calls))

-----------------------------------------------------------------------------
(* What the environment does.                                              *)

Call(k, a, ctx) ==
    /\ calls' = Append(calls, [k |-> k, a |-> a, s |-> "try", c |-> 0, left |-> cf.attempts, own |-> FALSE, ctx |-> ctx,
                               rcv |-> 0, dials |-> 0, fresh |-> FALSE, e |-> ""])
    /\ UNCHANGED <<cf, cn, out, inn, mode, acc, pf, quits, closed, closers, uses>>
EndCtx(i) ==
    /\ calls[i].ctx = "live"
    /\ calls' = [calls EXCEPT ![i].ctx = "ended"]
    /\ UNCHANGED <<cf, cn, out, inn, mode, acc, pf, quits, closed, closers, uses>>
SetMode(a, m) ==
    /\ mode' = [mode EXCEPT ![a] = m]
    /\ UNCHANGED <<cf, cn, out, inn, calls, acc, pf, quits, closed, closers, uses>>
\* The peer goes on with a handshake he had stalled, or breaks it off.
Finish(c) ==
    /\ cn[c].s = "hs" /\ cn[c].how = "stall"
    /\ cn' = [cn EXCEPT ![c].how = "up"]
    /\ UNCHANGED <<cf, out, inn, calls, mode, acc, pf, quits, closed, closers, uses>>
\* A connection is ended, by the peer, or by somebody who holds the client.
Drop(c) ==
    /\ cn[c].s \in {"hs", "up"} /\ cn[c].how # "lost"
    /\ cn' = [cn EXCEPT ![c].how = "lost"]
    /\ UNCHANGED <<cf, out, inn, calls, mode, acc, pf, quits, closed, closers, uses>>
Reply(i) ==
    /\ calls[i].s = "asked" /\ cn[calls[i].c].s = "up" /\ cn[calls[i].c].how # "lost"
    /\ calls' = [calls EXCEPT ![i].s = "ok"]
    /\ UNCHANGED <<cf, cn, out, inn, mode, acc, pf, quits, closed, closers, uses>>
Dialled(how, j) ==
    /\ cn' = Append(cn, [dir |-> "in", a |-> 0, j |-> j, s |-> "new", was |-> FALSE, dis |-> FALSE, how |-> how])
    /\ UNCHANGED <<cf, out, inn, calls, mode, acc, pf, quits, closed, closers, uses>>
CallClose ==
    /\ closers' = Append(closers, "call")
    /\ UNCHANGED <<cf, cn, out, inn, calls, mode, acc, pf, quits, closed, uses>>

-----------------------------------------------------------------------------
Conns(d, S) == {c \in 1..Len(cn) : cn[c].dir = d /\ cn[c].s \in S}

\* One live connection per address.
OnePerAddress == \A c, d \in Conns("out", Live) : cn[c].a = cn[d].a => c = d
\* The pools are bounded, hold every connection that is live, and each once.
Bounded == Len(out) <= cf.maxout /\ Len(inn) <= cf.maxin
ListedOnce ==
    /\ \A i, j \in 1..Len(out) : i # j => cn[out[i]].a # cn[out[j]].a
    /\ \A i, j \in 1..Len(inn) : i # j => inn[i] # inn[j]
    /\ Conns("out", Live) \subseteq Range(out) /\ Conns("in", Live) \subseteq Range(inn)
    /\ Conns("out", {"gone"}) \cap Range(out) = {} /\ Conns("in", {"gone"}) \cap Range(inn) = {}
\* The pool of outbound connections is in the order of last uses.
LastUse(c) == CHOOSE k \in 1..Len(uses) : uses[k] = c /\ \A n \in (k + 1)..Len(uses) : uses[n] # c
LeastRecentlyUsedLast == \A i, j \in 1..Len(out) : i < j => LastUse(out[i]) > LastUse(out[j])
\* Notifications: connected once established, disconnected once ended, in pairs.
Paired == \A c \in 1..Len(cn) : (cn[c].s = "up" => cn[c].was) /\ (cn[c].dis => cn[c].was /\ cn[c].s = "gone")
                                /\ (cn[c].s = "gone" => cn[c].dis = cn[c].was)
\* Calls dial no more often than they may.
DialsBounded == \A i \in 1..Len(calls) : calls[i].dials <= cf.attempts
\* Notifications of failed pings belong to failed calls.
PingFailedOnce == \A a \in DOMAIN pf : pf[a] + quits[a] <= Cardinality({i \in 1..Len(calls) : calls[i].a = a /\ calls[i].s = "err"})
\* Once the node is closed, all has ended, soon.
ClosedMeansEnded == (closed /\ Quiet) =>
    /\ out = <<>> /\ inn = <<>>
    /\ \A c \in 1..Len(cn) : cn[c].s = "gone"
    /\ \A i \in 1..Len(calls) : calls[i].s \in {"ok", "err"}
\* Quiet means quiet, and the other way around: the node never gets stuck.
QuietIsRest == Quiet <=> ~ENABLED Internal
=============================================================================
