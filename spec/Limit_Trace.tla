----------------------------- MODULE Limit_Trace ------------------------------
(* Checks what a node with a limit was seen to do. *)
EXTENDS Limit, TraceBatch
tvars == <<lvars, tr, l>>
TInit == BatchInit /\ InitL(1..3)
Lim == Traces[tr].plan.limit
\* Handled: the frames of that connection the handlers have seen.
Agrees == (conn'[Step.c] = Step.out /\ handled'[Step.c] = Step.handled /\ alloc'[Step.c] = Step.alloc) = TRUE
TNext ==
    \/ IsEvent("connect") /\ Connect(Lim, Step.c, Step.sizes) /\ Agrees
    \/ IsEvent("frame") /\ Frame(Lim, Step.c, Step.size, Step.whole) /\ Agrees
    \* In the end the connections that are up still serve, and no others are listed.
    \/ IsEvent("end") /\ UNCHANGED lvars
          /\ (\A c \in 1..3 : (conn[c] = "up") = Step.serves[c]) = TRUE
          /\ (Step.listed = [c \in 1..3 |-> conn[c] = "up"]) = TRUE
          /\ (\A c \in 1..3 : handled[c] = Step.handled[c]) = TRUE
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
