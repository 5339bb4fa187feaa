------------------------------ MODULE TraceBatch ------------------------------
(***************************************************************************)
(* What all trace specifications share.  A file holds many recorded traces *)
(* of the implementation; each is an initial state of its own (tr says     *)
(* which), and l is the next step of it to be explained.  A trace is       *)
(* accepted if some behaviour of the specification reaches its end.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l

NTraces == Len(Traces)
Steps(t) == Traces[t].steps
Step == Steps(tr)[l]
More == l <= Len(Steps(tr))

IsEvent(e) == More /\ Step.ev = e /\ l' = l + 1 /\ tr' = tr

BatchInit == tr \in 1..NTraces /\ l = 1

\* The register of a trace keeps how far it got.  Use as a state constraint, with one worker.  Once a trace has been
\* explained there is no point in looking for more explanations.
ASSUME \A t \in 1..NTraces : TLCSet(t, 0)
Progress ==
    /\ TLCSet(tr, IF l > TLCGet(tr) THEN l ELSE TLCGet(tr))
    /\ TLCGet(tr) <= Len(Steps(tr))

\* As a postcondition: tells the traces that could not be explained to their end.
Accepted ==
    /\ \A t \in 1..NTraces :
          TLCGet(t) = Len(Steps(t)) + 1 \/ PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
    /\ PrintT("BATCH " \o ToString(NTraces))
=============================================================================
