--------------------------------- MODULE Wire ---------------------------------
(***************************************************************************)
(* What goes over the wire, as someone sees it who listens in: sessions,   *)
(* one after the other or side by side, each with the two ephemeral keys   *)
(* it starts with, and frames in both directions that are sealed under the *)
(* session's secret with a nonce.  Both directions use the same secret, so *)
(* both draw from the same nonces.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Keys, Nonces, MaxSessions, MaxFrames

VARIABLES keys,   \* ephemeral keys used so far, in any session
          ses,    \* sessions: [used : set of nonces, n : number of frames, log : frames in order]
          clear   \* frames that went out in clear after the key exchange

vars == <<keys, ses, clear>>

Init == keys = {} /\ ses = <<>> /\ clear = 0

\* Each end comes up with a key never used before.
Open(k1, k2) ==
    /\ k1 # k2 /\ k1 \notin keys /\ k2 \notin keys
    /\ keys' = keys \cup {k1, k2}
    /\ ses' = Append(ses, [used |-> {}, n |-> 0])
    /\ UNCHANGED clear

\* Some frames of session s, in either direction, each under a nonce of its own.
Frames(s, ns) ==
    /\ \A i, j \in 1..Len(ns) : i # j => ns[i] # ns[j]
    /\ \A i \in 1..Len(ns) : ns[i] \notin ses[s].used
    /\ ses' = [ses EXCEPT ![s].used = @ \cup {ns[i] : i \in 1..Len(ns)}, ![s].n = @ + Len(ns)]
    /\ UNCHANGED <<keys, clear>>

Next ==
    \/ Len(ses) < MaxSessions /\ \E k1, k2 \in Keys : Open(k1, k2)
    \/ \E s \in 1..Len(ses) : ses[s].n < MaxFrames /\ \E n \in Nonces : Frames(s, <<n>>)

Spec == Init /\ [][Next]_vars

\* As many nonces were used in a session as there were frames.
NonceOnce == \A s \in 1..Len(ses) : Cardinality(ses[s].used) = ses[s].n
\* As many keys as sessions have ends.
FreshKeys == Cardinality(keys) = 2 * Len(ses)
AllSealed == clear = 0
=============================================================================
