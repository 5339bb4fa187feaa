------------------------------ MODULE Workers_MC ------------------------------
EXTENDS Workers
CONSTANTS W, H, NConns, MaxMsgs, Holding
C == 1..NConns
MInit == InitWith([workers |-> W, handlers |-> H], C)
Handling == \E m \in Msgs, h \in 1..H : Call(m, h) \/ Return(m, h)
Report == \E c \in C, m \in Msgs \cup {0} : Closed(c, m)
Env ==
    \/ Len(msgs) < MaxMsgs /\ \E c \in open, at \in 0..H, hold \in (IF Holding THEN SUBSET (1..H) ELSE {{}}) :
          Push(c, at, hold)
    \/ \E m \in Msgs, h \in 1..H : h \in msgs[m].holds /\ <<m, h>> \notin freed /\ Release(m, h)
    \/ \E c \in open : Lose(c)
MSpec == MInit /\ [][Internal \/ Handling \/ Report \/ Env]_vars
\* Messages of connections that stay open are handled if handlers return, however many errors there have been.
Fair == WF_vars(Internal) /\ WF_vars(Handling) /\ WF_vars(Report)
LSpec == MSpec /\ Fair
AllHandled == \A m \in 1..MaxMsgs :
    (m \in Msgs) ~> (m \in Msgs /\ (msgs[m].c \notin open \/ called[m] = 1..(IF msgs[m].at = 0 THEN H ELSE msgs[m].at)))
ErrorsReported == \A c \in C : (errs[c] # {}) ~> (told[c].yes)
=============================================================================
