--------------------------------- MODULE Rpc ---------------------------------
(***************************************************************************)
(* Requests and responses.  A node makes requests over connections to      *)
(* peers; a request carries a number (nonce) picked by the node, and the   *)
(* response to it carries the same one.  What comes in with a number that  *)
(* is waited for is a response; all else goes to the handlers.  The node   *)
(* remembers the numbers of requests it gave up, to drop late responses.   *)
(*                                                                         *)
(* At the other end, handlers may try to answer any number of times, from  *)
(* wherever they like; only the first attempt per request takes effect.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Reqs,      \* requests, each made at most once
          Conns,     \* connections of the node; all established to begin with
          Msgs,      \* messages of peers that are not requests or responses
          Attempts,  \* how often a peer's handlers try to answer a request
          MaxDup     \* how many responses of a hostile peer repeat an earlier one

None == 0

VARIABLES rq,      \* request -> [s : "idle", "open", "ok", "err"; c : connection or None; n : nonce or None;
                   \*             waits : the node still waits for the nonce; got : answer or <<>>; gaveup]
          lastn,   \* connection -> the last nonce used
          up,      \* connection -> requests under way to the peer
          seen,    \* requests that arrived at the peer
          down,    \* connection -> frames under way to the node: [n : nonce or 0, a : answer or message]
          tried,   \* request -> attempts made to answer it
          ans,     \* request -> the attempt that took effect, or None
          conn,    \* connection -> "up" or "lost"
          surf     \* what was given to handlers of the node
vars == <<rq, lastn, up, seen, down, tried, ans, conn, surf>>

\* An answer is a request and the number of the attempt at answering it.
Answers == Reqs \X (1..Attempts)

Idle == [s |-> "idle", c |-> None, n |-> None, waits |-> FALSE, got |-> <<>>, gaveup |-> FALSE]
InitWith(R, C) ==
    /\ rq = [r \in R |-> Idle] /\ lastn = [c \in C |-> 0] /\ up = [c \in C |-> <<>>] /\ seen = {}
    /\ down = [c \in C |-> <<>>] /\ tried = [r \in R |-> {}] /\ ans = [r \in R |-> None]
    /\ conn = [c \in C |-> "up"] /\ surf = {}
Init == InitWith(Reqs, Conns)

Open(r) == rq[r].s = "open"

\* The call is made.
Issue(r) ==
    /\ rq[r].s = "idle"
    /\ rq' = [rq EXCEPT ![r].s = "open"]
    /\ UNCHANGED <<lastn, up, seen, down, tried, ans, conn, surf>>

\* Nonces that are being waited for, or belong to requests that were given up.
InUse(c) == {rq[r].n : r \in {x \in DOMAIN rq : rq[x].c = c /\ rq[x].waits}}

\* The request goes out over c, under nonce n.
SendReq(r, c, n) ==
    /\ Open(r) /\ rq[r].c = None
    /\ conn[c] = "up"
    /\ n # 0 /\ n \notin InUse(c)
    /\ rq' = [rq EXCEPT ![r].c = c, ![r].n = n, ![r].waits = TRUE]
    /\ lastn' = [lastn EXCEPT ![c] = n]
    /\ up' = [up EXCEPT ![c] = Append(@, r)]
    /\ UNCHANGED <<seen, down, tried, ans, conn, surf>>

\* It arrives.
Arrive(r) ==
    LET c == rq[r].c IN
    /\ c # None /\ up[c] # <<>> /\ Head(up[c]) = r
    /\ up' = [up EXCEPT ![c] = Tail(@)]
    /\ seen' = seen \cup {r}
    /\ UNCHANGED <<rq, lastn, down, tried, ans, conn, surf>>

\* A handler of the peer makes attempt i at answering r. It succeeds if it is the first.
Attempt(r, i) ==
    /\ r \in seen /\ i \notin tried[r]
    /\ tried' = [tried EXCEPT ![r] = @ \cup {i}]
    /\ IF ans[r] = None
          THEN /\ ans' = [ans EXCEPT ![r] = i]
               /\ down' = [down EXCEPT ![rq[r].c] = Append(@, [n |-> rq[r].n, a |-> <<r, i>>])]
          ELSE UNCHANGED <<ans, down>>
    /\ UNCHANGED <<rq, lastn, up, seen, conn, surf>>

\* A hostile peer answers what was answered before, or was never asked.
Fake(c, n, a) ==
    /\ down' = [down EXCEPT ![c] = Append(@, [n |-> n, a |-> a])]
    /\ UNCHANGED <<rq, lastn, up, seen, tried, ans, conn, surf>>

\* A message of the peer.
Message(c, m) ==
    /\ down' = [down EXCEPT ![c] = Append(@, [n |-> 0, a |-> <<m>>])]
    /\ UNCHANGED <<rq, lastn, up, seen, tried, ans, conn, surf>>

\* The node takes in the next frame.
Receive(c) ==
    /\ conn[c] = "up" /\ down[c] # <<>>
    /\ LET f == Head(down[c])
           w == {r \in DOMAIN rq : rq[r].c = c /\ rq[r].waits /\ rq[r].n = f.n}
       IN IF f.n # 0 /\ w # {}
             THEN /\ rq' = [r \in DOMAIN rq |-> IF r \in w THEN [rq[r] EXCEPT !.waits = FALSE, !.got = f.a] ELSE rq[r]]
                  /\ UNCHANGED surf
             ELSE /\ surf' = surf \cup {f.a}
                  /\ UNCHANGED rq
    /\ down' = [down EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<lastn, up, seen, tried, ans, conn>>

GiveUp(r) ==
    /\ Open(r)
    /\ rq' = [rq EXCEPT ![r].gaveup = TRUE]
    /\ UNCHANGED <<lastn, up, seen, down, tried, ans, conn, surf>>

Lose(c) ==
    /\ conn[c] = "up"
    /\ conn' = [conn EXCEPT ![c] = "lost"]
    /\ UNCHANGED <<rq, lastn, up, seen, down, tried, ans, surf>>

ReturnOk(r) ==
    /\ Open(r) /\ rq[r].got # <<>>
    /\ rq' = [rq EXCEPT ![r].s = "ok"]
    /\ UNCHANGED <<lastn, up, seen, down, tried, ans, conn, surf>>

\* A request that never got onto a connection may have been about to take one that got lost.
CanFail(r) == rq[r].gaveup \/ (IF rq[r].c # None THEN conn[rq[r].c] = "lost" ELSE \E c \in DOMAIN conn : conn[c] = "lost")
Fail(r) ==
    /\ Open(r)
    /\ rq' = [rq EXCEPT ![r].s = "err"]
    /\ UNCHANGED <<lastn, up, seen, down, tried, ans, conn, surf>>

ReturnErr(r) == CanFail(r) /\ Fail(r)

AnswersSent == UNION {{<<r, ans[r]>>} : r \in {x \in DOMAIN ans : ans[x] # None}}

Next ==
    \/ \E r \in Reqs : \/ Issue(r) \/ Arrive(r) \/ GiveUp(r) \/ ReturnOk(r) \/ ReturnErr(r)
                       \/ \E c \in Conns : SendReq(r, c, lastn[c] + 1)
                       \/ \E i \in 1..Attempts : Attempt(r, i)
    \/ \E c \in Conns : Receive(c) \/ Lose(c)
    \/ \E c \in Conns, m \in Msgs : (\A x \in Conns : ~\E i \in 1..Len(down[x]) : down[x][i].a = <<m>>) /\ <<m>> \notin surf /\ Message(c, m)
    \/ \E c \in Conns, a \in AnswersSent :
          /\ Cardinality({x \in Conns : \E i \in 1..Len(down[x]) : down[x][i].a = <<"fake">>}) < MaxDup
          /\ Fake(c, rq[a[1]].n, <<"fake">>)

Fair ==
    /\ \A r \in Reqs : WF_vars(ReturnOk(r)) /\ WF_vars(ReturnErr(r)) /\ WF_vars(Arrive(r))
                       /\ WF_vars(\E c \in Conns : SendReq(r, c, lastn[c] + 1))
    /\ \A c \in Conns : WF_vars(Receive(c))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
\* A request returns the answer to itself, as given by the first attempt.
OwnAnswer == MaxDup = 0 => \A r \in DOMAIN rq : rq[r].s = "ok" => rq[r].got = <<r, ans[r]>>
\* No response is used twice.
UsedOnce == MaxDup = 0 => \A r, q \in DOMAIN rq : (r # q /\ rq[r].got # <<>>) => rq[r].got # rq[q].got
\* Honest peers' responses never come up at the handlers.
LateDropped == MaxDup = 0 => \A a \in surf : Len(a) = 1
\* At most one response per request leaves the peer.
OneResponse == \A c \in DOMAIN down : \A i, j \in 1..Len(down[c]) :
    (i # j /\ down[c][i].n # 0 /\ down[c][i].a # <<"fake">> /\ down[c][j].a # <<"fake">> /\ down[c][j].n # 0)
        => down[c][i].a[1] # down[c][j].a[1]
\* No two requests on a connection share a number while it matters.
OwnNonce == \A r, q \in DOMAIN rq : (r # q /\ rq[r].waits /\ rq[q].waits /\ rq[r].c = rq[q].c) => rq[r].n # rq[q].n

\* A request ends once it is answered or given up, or its connection is lost.
Ends == \A r \in Reqs : (Open(r) /\ (rq[r].gaveup \/ rq[r].got # <<>> \/ (rq[r].c # None /\ conn[rq[r].c] = "lost"))) ~> ~Open(r)
\* If a response is under way, and nothing happens to the connection, the request gets it.
Answered == \A r \in Reqs : (Open(r) /\ ans[r] # None) ~> (~Open(r))
=============================================================================
