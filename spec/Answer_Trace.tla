----------------------------- MODULE Answer_Trace -----------------------------
(***************************************************************************)
(* Checks what a node answers: Rpc from the other end.  Raw peers make the *)
(* requests, and the handlers of the node under test attempt to answer.    *)
(***************************************************************************)
EXTENDS Rpc, TraceBatch
VARIABLES calling, \* attempts under way that have not taken effect
          won      \* attempts that put something on the wire
tvars == <<vars, calling, won, tr, l>>
Silent == UNCHANGED <<tr, l>>

TInit == BatchInit /\ InitWith(1..Traces[tr].plan.nreqs, 1..Traces[tr].plan.conns) /\ calling = {} /\ won = {}

\* A message, or a request if n is not 0, gets to the node.
Ask(r, c, n) ==
    /\ rq[r].s = "idle"
    /\ rq' = [rq EXCEPT ![r].s = "open", ![r].c = c, ![r].n = n]
    /\ seen' = seen \cup {r}
    /\ UNCHANGED <<lastn, up, down, tried, ans, conn, surf>>

\* What is not a request may be answered as often as one likes.
TAttempt(r, i) ==
    /\ <<r, i>> \in calling
    /\ IF rq[r].n # 0 THEN Attempt(r, i)
       ELSE /\ down' = [down EXCEPT ![rq[r].c] = Append(@, [n |-> 0, a |-> <<r, i>>])]
            /\ tried' = [tried EXCEPT ![r] = @ \cup {i}]
            /\ UNCHANGED <<rq, lastn, up, seen, ans, conn, surf>>
    /\ calling' = calling \ {<<r, i>>}
    /\ won' = IF rq[r].n = 0 \/ ans[r] = None THEN won \cup {<<r, i>>} ELSE won
    /\ Silent

Tried(r, i, ok) ==
    IF i \in tried[r]
       THEN (ok <=> <<r, i>> \in won) /\ IsEvent("tried") /\ UNCHANGED <<vars, calling, won>>
       ELSE IF ok \/ ans[r] # None \/ rq[r].n = 0 THEN TAttempt(r, i)
            ELSE \E j \in {x[2] : x \in {y \in calling : y[1] = r}} \ {i} : TAttempt(r, j)

Got(c, n, a) ==
    IF \E k \in 1..Len(down[c]) : down[c][k] = [n |-> n, a |-> a]
       THEN /\ IsEvent("got")
            /\ down' = [down EXCEPT ![c] = SelectSeq(@, LAMBDA f : f # [n |-> n, a |-> a])]
            /\ UNCHANGED <<rq, lastn, up, seen, tried, ans, conn, surf, calling, won>>
       ELSE TAttempt(a[1], a[2])

TNext ==
    \/ IsEvent("ask") /\ Ask(Step.r, Step.c, Step.n) /\ UNCHANGED <<calling, won>>
    \/ IsEvent("try") /\ Step.r \in seen /\ calling' = calling \cup {<<Step.r, Step.i>>} /\ UNCHANGED <<vars, won>>
    \/ More /\ Step.ev = "tried" /\ Tried(Step.r, Step.i, Step.ok)
    \/ More /\ Step.ev = "got" /\ Got(Step.c, Step.n, Step.a)
    \/ IsEvent("end") /\ calling = {} /\ (\A c \in DOMAIN down : down[c] = <<>>) /\ UNCHANGED <<vars, calling, won>>
TSpec == TInit /\ [][TNext]_tvars
OneEach == \A r \in DOMAIN ans : rq[r].n # 0 => \A x, y \in won : (x[1] = r /\ y[1] = r) => x = y
=============================================================================
