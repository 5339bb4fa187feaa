------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* One handshake of a node "H", dialled by it or accepted by it, with an   *)
(* active adversary at the other end of the line (a symbolic, Dolev-Yao    *)
(* style adversary).  The adversary "E" has an identity of its own, had    *)
(* sessions before with the honest node "A" and with "H", and holds every  *)
(* frame that went over those.                                             *)
(*                                                                         *)
(* The handshake: both ends send their ephemeral key, signed with itself;  *)
(* both derive the session's secret; both send, sealed with it, their      *)
(* identity and a signature by that identity over (identity, secret).      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Roles,        \* subset of {"dial", "accept"}
         ReflectionAccepted \* TRUE: models the known deviation described at OwnReflected

VARIABLES role, phase, knows, peer, done, signed, handled

vars == <<role, phase, knows, peer, done, signed, handled>>

-----------------------------------------------------------------------------
(* Frames the adversary can come up with. *)

KexKeys == {"fresh", "stale", "reflect", "low", "junk"}
KexSigs == {"ok", "text", "key", "flip", "zero"}
Lens    == {"exact", "short", "half", "long", "empty"}

\* Whose secret key the signature verifies under, given the key it came with.
KexFrame == [ev : {"kex"}, key : KexKeys, sig : KexSigs, len : Lens]

\* One signs with a fresh key at will.  Of keys of others there is only what was seen: the right signature.
KexPossible(f) ==
    /\ f.key \in {"stale", "reflect", "low"} => f.sig \in {"ok", "zero", "key"}
    /\ f.key = "junk" => f.sig \in {"zero", "key"}
    /\ f.len # "exact" => f.sig = "ok" /\ f.key \in {"fresh", "stale"}

KexFrames == {f \in KexFrame : KexPossible(f)}

\* The signature verifies, and the key takes part in a proper key agreement.
KexOk(f) == f.len = "exact" /\ f.sig = "ok" /\ f.key \in {"fresh", "stale", "reflect"}

Seals == {"session", "flip", "other", "clear", "replayA", "replayH", "reflect"}
IdFrame == [ev : {"id"}, seal : Seals, who : {"E", "A", "H"}, by : {"E", "A", "H", "junk"},
            over : {"this", "other", "none"}, alt : {"none", "key", "host", "port", "sig"}, len : Lens]

\* Signatures the adversary can get hold of: its own over anything; A's over (A, secret of the other session);
\* H's over (H, secret of the other session), and, as H has just sent it, H's over (H, secret of this session).
SigAvailable(f) ==
    \/ f.by = "E"
    \/ f.by = "A" /\ f.over = "other"
    \/ f.by = "H" /\ f.over \in {"this", "other"}
    \/ f.by = "junk" /\ f.over = "none"

Plain(f) == f.who = "E" /\ f.by = "E" /\ f.over = "this" /\ f.alt = "none" /\ f.len = "exact"

IdPossible(f) ==
    /\ SigAvailable(f)
    /\ (f.alt # "none" \/ f.len # "exact") => (f.who = f.by /\ (f.who = "E" => f.over = "this"))
    /\ f.alt # "none" => f.len = "exact"
    /\ f.seal \notin {"session"} => Plain(f)

IdFrames == {f \in IdFrame : IdPossible(f)}

\* Frames that take the secret of the session to make.
TakesSecret(f) == f.seal \in {"session", "flip"}

\* H's own frame of this session sent back to it, as it is or sealed anew.  H verifies: it did sign that.
OwnReflected(f) ==
    \/ f.seal = "reflect"
    \/ f.seal = "session" /\ f.who = "H" /\ f.by = "H" /\ f.over = "this" /\ f.alt = "none" /\ f.len = "exact"

\* What a frame proves: who signed its identity in this very session.
Proves(f) ==
    /\ f.seal = "session"
    /\ f.len = "exact" /\ f.alt = "none"
    /\ f.who = f.by /\ f.over = "this"

IdOk(f) == (Proves(f) /\ f.who # "H") \/ (ReflectionAccepted /\ OwnReflected(f))

\* The known deviation: one's own frame may be taken for the peer's.  It ought to be refused.
Outcomes(f) == IF ReflectionAccepted /\ OwnReflected(f) THEN BOOLEAN ELSE {IdOk(f)}
IdPeer(f) == IF OwnReflected(f) THEN "H" ELSE f.who

Msgs == [ev : {"msg"}, seal : {"session", "clear"}]

-----------------------------------------------------------------------------
Init ==
    /\ role \in Roles
    /\ phase = "kex"
    /\ knows = FALSE
    /\ peer = "none"
    /\ done = "none"
    /\ signed = {}
    /\ handled = 0

Hangup ==
    /\ phase \in {"kex", "id"}
    /\ phase' = "closed"
    /\ done' = "hangup"
    /\ UNCHANGED <<role, knows, peer, signed, handled>>

Kex(f) ==
    /\ phase = "kex"
    /\ f \in KexFrames
    /\ phase' = IF KexOk(f) THEN "id" ELSE "closed"
    /\ knows' = (f.key = "fresh")
    /\ done' = "kex"
    \* H goes on to sign its identity for this session.
    /\ signed' = IF KexOk(f) THEN signed \cup {"H"} ELSE signed
    /\ UNCHANGED <<role, peer, handled>>

\* Anything but a key exchange frame in its place.
KexOther(m) ==
    /\ phase = "kex"
    /\ m.seal = "clear"
    /\ phase' = "closed"
    /\ done' = "msg"
    /\ UNCHANGED <<role, knows, peer, signed, handled>>

Id(f) ==
    /\ phase = "id"
    /\ f \in IdFrames
    /\ TakesSecret(f) => knows
    /\ \E accepted \in Outcomes(f) :
          /\ phase' = IF accepted THEN "up" ELSE "closed"
          /\ peer' = IF accepted THEN IdPeer(f) ELSE "none"
    /\ signed' = IF f.seal = "session" /\ f.by = "E" /\ f.over = "this" THEN signed \cup {"E"} ELSE signed
    /\ done' = "id"
    /\ UNCHANGED <<role, knows, handled>>

IdOther(m) ==
    /\ phase = "id"
    /\ m.seal = "session" => knows
    /\ phase' = "closed"
    /\ done' = "msg"
    /\ UNCHANGED <<role, knows, peer, signed, handled>>

\* A message, on an established connection.
Message(m) ==
    /\ phase = "up"
    /\ done = "id"
    /\ handled = 0
    /\ m.seal = "session" => knows
    /\ IF m.seal = "session"
          THEN handled' = 1 /\ phase' = phase
          ELSE phase' = "closed" /\ UNCHANGED handled
    /\ UNCHANGED <<role, knows, peer, done, signed>>

Msg(m) == m \in Msgs /\ (KexOther(m) \/ IdOther(m) \/ Message(m))

Next == Hangup \/ (\E f \in KexFrames : Kex(f)) \/ (\E f \in IdFrames : Id(f)) \/ (\E m \in Msgs : Msg(m))

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
    /\ role \in {"dial", "accept"} /\ phase \in {"kex", "id", "up", "closed"}
    /\ peer \in {"none", "E", "A", "H"} /\ handled \in 0..1

\* Nobody is attributed an identity that did not sign for it in this session, over this line.
Authentic == peer # "none" => peer \in signed /\ peer # "A" /\ (peer = "H" => ReflectionAccepted)

\* The only one at the other end of the line is E.
NoImpersonation == peer \in {"none", "E"} \/ (ReflectionAccepted /\ peer = "H")

\* Messages are taken only from authenticated peers.
NoEarlyMessage == handled > 0 => peer # "none"

\* Having an identity takes having completed the handshake.
PeerOnlyWhenUp == peer # "none" => done = "id"
=============================================================================
