-------------------------------- MODULE Workers -------------------------------
(***************************************************************************)
(* How a node handles messages: a fixed number of workers take them from   *)
(* the connections and run them through the handlers, one handler after    *)
(* another, up to the first one that returns an error.  That error closes  *)
(* the connection the message came from, and nothing else.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
    size,    \* [workers, handlers]: how many there are
    msgs,    \* messages, numbered as they were sent: [c : connection, at : handler that returns an error, or 0, holds : handlers that wait until released]
    pending, \* connection -> messages that are yet to be taken, in order
    run,     \* message -> [h : handler it has reached, s : "new", "in" that or "out" of it, with a worker, or "fin"]
    called,  \* message -> handlers called with it
    freed,   \* <<message, handler>> that need not wait any more
    errs,    \* connection -> messages whose handlers returned an error
    lost,    \* connections that were ended otherwise
    open,    \* connections that are open
    told     \* connection -> [yes : it is reported as closed, m : the message whose error was the cause, or 0]
vars == <<size, msgs, pending, run, called, freed, errs, lost, open, told>>

InitWith(sz, C) ==
    /\ size = sz /\ msgs = <<>> /\ pending = [c \in C |-> <<>>] /\ run = <<>> /\ called = <<>> /\ freed = {}
    /\ errs = [c \in C |-> {}] /\ lost = {} /\ open = C /\ told = [c \in C |-> [yes |-> FALSE, m |-> 0]]

Msgs == 1..Len(msgs)
Running == {m \in Msgs : run[m].s \in {"in", "out"}}

-----------------------------------------------------------------------------
\* A free worker takes the next message of some connection.
Take(c) ==
    /\ Cardinality(Running) < size.workers /\ pending[c] # <<>>
    /\ LET m == Head(pending[c]) IN run' = [run EXCEPT ![m].s = "out"]
    /\ pending' = [pending EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<size, msgs, called, freed, errs, lost, open, told>>
\* What an open connection has received is handled. What a closed one has received may be dropped.
Forget(c) ==
    /\ c \notin open /\ pending[c] # <<>>
    /\ pending' = [pending EXCEPT ![c] = <<>>]
    /\ UNCHANGED <<size, msgs, run, called, freed, errs, lost, open, told>>
Call(m, h) ==
    /\ m \in Running /\ run[m] = [h |-> h - 1, s |-> "out"] /\ h <= size.handlers
    /\ ~(msgs[m].at # 0 /\ h > msgs[m].at)
    /\ run' = [run EXCEPT ![m] = [h |-> h, s |-> "in"]]
    /\ called' = [called EXCEPT ![m] = @ \cup {h}]
    /\ UNCHANGED <<size, msgs, pending, freed, errs, lost, open, told>>
Return(m, h) ==
    /\ m \in Running /\ run[m] = [h |-> h, s |-> "in"]
    /\ h \in msgs[m].holds => <<m, h>> \in freed
    /\ IF msgs[m].at = h
          THEN /\ errs' = [errs EXCEPT ![msgs[m].c] = @ \cup {m}]
               /\ open' = open \ {msgs[m].c}
               /\ run' = [run EXCEPT ![m].s = "fin"]
          ELSE /\ run' = IF h = size.handlers THEN [run EXCEPT ![m].s = "fin"] ELSE [run EXCEPT ![m].s = "out"]
               /\ UNCHANGED <<errs, open>>
    /\ UNCHANGED <<size, msgs, pending, called, freed, lost, told>>
\* A connection that has been closed is reported so, with the cause.
Closed(c, m) ==
    /\ c \notin open /\ ~told[c].yes
    /\ m \in errs[c] \/ (m = 0 /\ c \in lost)
    /\ told' = [told EXCEPT ![c] = [yes |-> TRUE, m |-> m]]
    /\ UNCHANGED <<size, msgs, pending, run, called, freed, errs, lost, open>>

Internal == \E c \in DOMAIN pending : Take(c) \/ Forget(c)

Push(c, at, holds) ==
    /\ msgs' = Append(msgs, [c |-> c, at |-> at, holds |-> holds])
    /\ called' = Append(called, {})
    /\ run' = Append(run, [h |-> 0, s |-> "new"])
    /\ pending' = [pending EXCEPT ![c] = Append(@, Len(msgs) + 1)]
    /\ UNCHANGED <<size, freed, errs, lost, open, told>>
Release(m, h) ==
    /\ freed' = freed \cup {<<m, h>>}
    /\ UNCHANGED <<size, msgs, pending, run, called, errs, lost, open, told>>
Lose(c) ==
    /\ lost' = lost \cup {c} /\ open' = open \ {c}
    /\ UNCHANGED <<size, msgs, pending, run, called, freed, errs, told>>

Held(m) == run[m].s = "in" /\ run[m].h \in msgs[m].holds /\ <<m, run[m].h>> \notin freed
\* All that open connections brought is handled, or being handled, or there is no worker free to do so.
Quiet ==
    /\ \A m \in Running : Held(m) \/ msgs[m].c \notin open
    /\ \A c \in open : pending[c] = <<>> \/ Cardinality(Running) = size.workers
    \* With all workers busy, a node need not notice that a peer is gone.
    /\ \A c \in DOMAIN pending \ open : told[c].yes \/ (errs[c] = {} /\ Cardinality(Running) = size.workers)

-----------------------------------------------------------------------------
\* No handler after the one that returned an error, and none out of turn.
UpToTheError == \A m \in Msgs : \E k \in 0..size.handlers :
    called[m] = 1..k /\ (msgs[m].at # 0 => k <= msgs[m].at)
\* Connections are closed by the errors of their own messages, and reported with them.
OwnErrorsOnly == \A c \in DOMAIN pending :
    /\ c \in open <=> (errs[c] = {} /\ c \notin lost)
    /\ \A m \in errs[c] : msgs[m].c = c
    /\ told[c].yes => c \notin open /\ (told[c].m # 0 => told[c].m \in errs[c])
Capacity == Cardinality(Running) <= size.workers
=============================================================================
