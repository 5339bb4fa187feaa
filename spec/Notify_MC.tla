------------------------------ MODULE Notify_MC ------------------------------
EXTENDS Notify
CONSTANTS MaxPush, MaxSend
VARIABLES pushes, sends
MInit == InitWith(Conns, Protos) /\ pushes = 0 /\ sends = 0
U == UNCHANGED <<pushes, sends>>
MNext ==
    \/ Internal(Conns, Protos) /\ U
    \/ \E c \in Conns \ good : Open(c) /\ U
    \/ pushes < MaxPush /\ pushes' = pushes + 1 /\ UNCHANGED sends /\ \E c \in good, k \in {"msg", "ask", "resp"} : over[c] = "no" /\ Push(c, k, 1)
    \/ sends < MaxSend /\ sends' = sends + 1 /\ UNCHANGED pushes /\ \E c \in good : Send(c)
    \/ \E c \in good, how \in {"drained", "any"} : over[c] = "no" /\ Over(c, how) /\ U
MSpec == MInit /\ [][MNext]_<<vars, pushes, sends>>
=============================================================================
