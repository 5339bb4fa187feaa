------------------------------ MODULE SessionNet ------------------------------
(***************************************************************************)
(* The same handshake seen from the network: honest nodes run several      *)
(* sessions at once (dialling and accepting alike: the handshake is        *)
(* symmetric), and the adversary is the network.  It relays, drops,        *)
(* reorders, replays and reflects frames at will, takes part with keys of  *)
(* its own, and seals or opens whatever it has the secret of.              *)
(*                                                                         *)
(* A session's secret is determined by the two ephemeral keys it was       *)
(* agreed with, here: the set of the two.                                  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Nodes,     \* honest nodes
          Slots,     \* sessions of each
          NEKeys,    \* number of ephemeral keys of the adversary
          Reflection \* TRUE: a node may take its own identity frame for its peer's (known deviation)

VARIABLES sess, net, msgs

vars == <<sess, net, msgs>>

EKeys == {"E"} \X (1..NEKeys)
NoKey == <<"none", 0>>
Sid == Nodes \X Slots
None == "none"
Eve == "E"
Agents == Nodes \cup {Eve}

\* Ephemeral keys: that of an honest session is named after it.
Keys == Sid \cup EKeys
Secret(a, b) == {a, b}
EveKnows(sec) == sec \cap EKeys # {}

\* A signature binds an identity to a secret.
Sig(a, sec) == [by |-> a, sec |-> sec]

Init ==
    /\ sess = [s \in Sid |-> [st |-> "new", key |-> NoKey, peer |-> None]]
    /\ net = {}    \* signed identity frames sent by honest nodes: [sealed under, who, signature]
    /\ msgs = {}   \* messages taken by honest sessions: [at, from, secret]

MySecret(s) == Secret(s, sess[s].key)

Start(s) ==
    /\ sess[s].st = "new"
    /\ sess' = [sess EXCEPT ![s].st = "kex"]
    /\ UNCHANGED <<net, msgs>>

\* Ephemeral keys signed with themselves can be replayed by anyone who saw them.
SeenKeys == EKeys \cup {s \in Sid : sess[s].st # "new"}

RecvKex(s, k) ==
    /\ sess[s].st = "kex"
    /\ k \in SeenKeys
    /\ LET sec == Secret(s, k) IN
       /\ sess' = [sess EXCEPT ![s].st = "id", ![s].key = k]
       /\ net' = net \cup {[seal |-> sec, who |-> s[1], sig |-> Sig(s[1], sec)]}
    /\ UNCHANGED msgs

\* Identity frames the adversary can put on the wire: recorded ones as they are, and, if it has the secret to seal
\* with, anything made of identities and signatures it can read or make.
ReadableSigs == {f.sig : f \in {g \in net : EveKnows(g.seal)}}
CanSend(f) ==
    \/ f \in net
    \/ /\ EveKnows(f.seal)
       /\ f.sig.by = Eve \/ f.sig \in ReadableSigs

\* The frame is sealed under the secret of the session, and signed by the identity it claims, for this secret.
IdValid(s, f) ==
    /\ f.seal = MySecret(s)
    /\ f.sig = Sig(f.who, MySecret(s))

RecvId(s) ==
    /\ sess[s].st = "id"
    /\ \E who \in Agents, by \in Agents, sec \in {MySecret(s)} \cup {g.seal : g \in net} :
          LET f == [seal |-> MySecret(s), who |-> who, sig |-> Sig(by, sec)] IN
          /\ CanSend(f)
          /\ IF IdValid(s, f) /\ (who # s[1] \/ Reflection \/ \E t \in Sid : t # s /\ t[1] = who /\ sess[t].key # NoKey /\ MySecret(t) = MySecret(s))
                THEN sess' = [sess EXCEPT ![s].st = "up", ![s].peer = who]
                ELSE sess' = [sess EXCEPT ![s].st = "dead"]
    /\ UNCHANGED <<net, msgs>>

\* A message is taken if it is sealed under the session's secret. Either the other end of the secret sealed it, or
\* the adversary.
RecvMsg(s) ==
    /\ sess[s].st = "up"
    /\ \E from \in Agents :
          /\ \/ from = Eve /\ EveKnows(MySecret(s))
             \/ \E t \in Sid : t # s /\ t[1] = from /\ sess[t].key # NoKey /\ MySecret(t) = MySecret(s)
          /\ msgs' = msgs \cup {[at |-> s, from |-> from]}
    /\ UNCHANGED <<sess, net>>

Drop(s) ==
    /\ sess[s].st \in {"kex", "id"}
    /\ sess' = [sess EXCEPT ![s].st = "dead"]
    /\ UNCHANGED <<net, msgs>>

Next == \E s \in Sid : Start(s) \/ (\E k \in Keys : RecvKex(s, k)) \/ RecvId(s) \/ RecvMsg(s) \/ Drop(s)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Whoever a session takes for its peer has a session of its own with that very secret.
Agreement ==
    \A s \in Sid :
        sess[s].st = "up" /\ sess[s].peer \in Nodes =>
            \/ \E t \in Sid : t # s /\ t[1] = sess[s].peer /\ sess[t].key # NoKey /\ MySecret(t) = MySecret(s)
            \/ Reflection /\ sess[s].peer = s[1]

\* The adversary does not have the secret of a session between honest nodes.
Secrecy ==
    \A s \in Sid :
        sess[s].st = "up" /\ sess[s].peer \in Nodes /\ ~(Reflection /\ sess[s].peer = s[1]) => ~EveKnows(MySecret(s))

\* A message is from the one it is attributed to.
Origin == \A m \in msgs : m.from = sess[m.at].peer \/ (Reflection /\ sess[m.at].peer = m.at[1])

\* No two sessions of honest nodes agree on one secret unless they are the two ends of one connection.
FreshSecrets ==
    \A s, t, u \in Sid :
        (s # t /\ t # u /\ s # u /\ sess[s].key # NoKey /\ sess[t].key # NoKey /\ sess[u].key # NoKey)
            => ~(MySecret(s) = MySecret(t) /\ MySecret(t) = MySecret(u))
=============================================================================
