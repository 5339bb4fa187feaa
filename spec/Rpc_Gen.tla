------------------------------- MODULE Rpc_Gen -------------------------------
(***************************************************************************)
(* The environment of Rpc: what callers, peers and the network do to a     *)
(* node, as plans for the driver.  The steps of the node itself happen in  *)
(* between; w says whether the driver waits for them before it goes on.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Reqs, NConns, Kinds, Depth, Waits, Dups
VARIABLES st,    \* request -> [c : connection or 0, ans, up : BOOLEAN]
          lost,  \* connections that were lost
          h, m
gvars == <<st, lost, h, m>>

Conns == 1..NConns
GInit == st = [r \in Reqs |-> [c |-> 0, ans |-> FALSE, gone |-> FALSE]] /\ lost = {} /\ h = <<>> /\ m = 0
Do(step) == h' = Append(h, step)

Issue(r, c, w) ==
    /\ st[r].c = 0 /\ c \notin lost /\ \A q \in Reqs : q < r => st[q].c # 0
    /\ st' = [st EXCEPT ![r].c = c] /\ Do([ev |-> "issue", r |-> r, c |-> c, w |-> w]) /\ UNCHANGED <<lost, m>>
Answer(r, w) ==
    /\ st[r].c # 0 /\ ~st[r].ans /\ st[r].c \notin lost
    /\ st' = [st EXCEPT ![r].ans = TRUE] /\ Do([ev |-> "answer", r |-> r, c |-> st[r].c, w |-> w]) /\ UNCHANGED <<lost, m>>
Cancel(r, how, w) ==
    /\ st[r].c # 0 /\ ~st[r].gone
    /\ st' = [st EXCEPT ![r].gone = TRUE] /\ Do([ev |-> "cancel", r |-> r, how |-> how, w |-> w]) /\ UNCHANGED <<lost, m>>
Dup(r) ==
    /\ Dups /\ st[r].ans /\ st[r].c \notin lost
    /\ Do([ev |-> "dup", r |-> r, c |-> st[r].c]) /\ UNCHANGED <<st, lost, m>>
Unasked(c) == Dups /\ c \notin lost /\ Do([ev |-> "unasked", c |-> c]) /\ UNCHANGED <<st, lost, m>>
Message(c) == c \notin lost /\ m < 3 /\ m' = m + 1 /\ Do([ev |-> "msg", c |-> c, m |-> m + 1]) /\ UNCHANGED <<st, lost>>
Lose(c, k, w) ==
    /\ c \notin lost
    /\ lost' = (IF k \in {"nodeclose", "evict"} THEN Conns ELSE lost \cup {c})
    /\ Do([ev |-> "lose", c |-> c, kind |-> k, w |-> w]) /\ UNCHANGED <<st, m>>
Held(c) == c \in lost /\ Do([ev |-> "held", c |-> c]) /\ UNCHANGED <<st, lost, m>>

GNext ==
    /\ Len(h) < Depth
    /\ \/ \E r \in Reqs : \/ Dup(r)
                          \/ \E w \in Waits : Answer(r, w) \/ \E c \in Conns : Issue(r, c, w)
                          \/ \E w \in Waits, how \in {"cancel", "deadline"} : Cancel(r, how, w)
       \/ \E c \in Conns : \/ Message(c) \/ Unasked(c) \/ Held(c)
                           \/ \E k \in Kinds, w \in Waits : Lose(c, k, w)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(h) = Depth => PrintT("PLAN " \o ToJson([conns |-> NConns, steps |-> h]))
=============================================================================
