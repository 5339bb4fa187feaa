--------------------------------- MODULE Limit --------------------------------
(***************************************************************************)
(* Connections of a node whose limit on the size of frames is L, 0 for     *)
(* none.  Sizes are pairs of 16-bit numbers, most significant first.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

VARIABLES conn,     \* connection -> "up", "toolarge", "bad": whether, and why, the node closed it
          handled,  \* connection -> sizes of the frames handled
          alloc     \* connection -> whether room was made for the content of a frame that is too large
lvars == <<conn, handled, alloc>>

LE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Fits(L, s) == L = <<0, 0>> \/ LE(s, L)
\* No frame with a message in it is smaller.
Smallest == <<0, 36>>

InitL(C) == conn = [c \in C |-> "none"] /\ handled = [c \in C |-> <<>>] /\ alloc = [c \in C |-> FALSE]

\* A peer connects, sending handshake frames of these sizes.
Connect(L, c, sizes) ==
    /\ conn[c] = "none"
    /\ conn' = [conn EXCEPT ![c] = IF \A i \in 1..Len(sizes) : Fits(L, sizes[i]) THEN "up" ELSE "toolarge"]
    /\ UNCHANGED <<handled, alloc>>
\* What becomes of a connection once this size was announced on it, and once the content has come in.
Announced(L, s) == IF Fits(L, s) THEN "up" ELSE "toolarge"
Complete(L, s) == IF ~Fits(L, s) THEN "toolarge" ELSE IF LE(Smallest, s) THEN "up" ELSE "bad"
Frame(L, c, s, whole) ==
    /\ conn[c] = "up"
    /\ LET out == IF whole THEN Complete(L, s) ELSE Announced(L, s) IN
       /\ conn' = [conn EXCEPT ![c] = out]
       /\ handled' = IF whole /\ out = "up" THEN [handled EXCEPT ![c] = Append(@, s)] ELSE handled
    /\ UNCHANGED alloc

-----------------------------------------------------------------------------
NoneTooLarge(L) == \A c \in DOMAIN handled : \A i \in 1..Len(handled[c]) : Fits(L, handled[c][i])
NothingAllocated == \A c \in DOMAIN alloc : ~alloc[c]
=============================================================================
