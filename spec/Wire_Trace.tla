------------------------------ MODULE Wire_Trace ------------------------------
(***************************************************************************)
(* Checks what was seen on the wire.  The recorder numbers keys, over all  *)
(* traces of a file, and nonces, within a session, in the order of their   *)
(* first occurrence; a value seen before comes with the number it had.     *)
(* Sets of what was used are thus initial segments of the naturals, and    *)
(* using something new is using the next number.                           *)
(***************************************************************************)
EXTENDS Wire, TraceBatch
VARIABLES nextKey, nextNonce
tvars == <<vars, nextKey, nextNonce, tr, l>>

TInit == Init /\ BatchInit /\ nextKey = Traces[tr].plan.firstKey /\ nextNonce = 1

\* Open, and Frames, with those sets represented by the least number not in them.
TOpen(k1, k2) ==
    /\ k1 = nextKey /\ k2 = nextKey + 1
    /\ nextKey' = nextKey + 2 /\ nextNonce' = 1
    /\ ses' = Append(ses, [used |-> {}, n |-> 0])
    /\ UNCHANGED <<keys, clear>>
TFrames(ns) ==
    /\ \A i \in 1..Len(ns) : ns[i] = nextNonce + i - 1
    /\ nextNonce' = nextNonce + Len(ns)
    /\ ses' = [ses EXCEPT ![Len(ses)].n = @ + Len(ns)]
    /\ UNCHANGED <<keys, clear, nextKey>>

TNext ==
    \/ IsEvent("session") /\ TOpen(Step.k1, Step.k2)
    \/ IsEvent("frames") /\ Step.clear = 0 /\ TFrames(Step.ns)
    \/ IsEvent("end") /\ Len(ses) = Step.sessions /\ UNCHANGED <<vars, nextKey, nextNonce>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
