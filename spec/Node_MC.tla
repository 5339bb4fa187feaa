------------------------------- MODULE Node_MC -------------------------------
EXTENDS Node
CONSTANTS A, MaxOut, MaxIn, Attempts, NCalls, NIn, NCtx, NDrop, NMode, Kinds, Modes
VARIABLES drops, ctxs, modes
mvars == <<vars, drops, ctxs, modes>>
MInit == \E m \in [1..A -> Modes] :
    /\ InitWith([maxout |-> MaxOut, maxin |-> MaxIn, attempts |-> Attempts, listens |-> TRUE], 1..A, m)
    /\ drops = 0 /\ ctxs = 0 /\ modes = 0
NumIn == Cardinality({c \in 1..Len(cn) : cn[c].dir = "in"})
U == UNCHANGED <<drops, ctxs, modes>>
MNext ==
    \/ Internal /\ U
    \/ \E c \in 1..Len(cn) : Late(c) /\ U
    \/ Len(calls) < NCalls /\ U /\ \E k \in Kinds, a \in 1..A : Call(k, a, "live")
    \/ ctxs < NCtx /\ ctxs' = ctxs + 1 /\ UNCHANGED <<drops, modes>> /\ \E i \in 1..Len(calls) : calls[i].s \notin {"ok", "err"} /\ EndCtx(i)
    \/ modes < NMode /\ modes' = modes + 1 /\ UNCHANGED <<drops, ctxs>> /\ \E a \in 1..A : \E m \in Modes \ {mode[a]} : SetMode(a, m)
    \/ drops < NDrop /\ drops' = drops + 1 /\ UNCHANGED <<ctxs, modes>> /\ \E c \in 1..Len(cn) : Drop(c)
    \/ U /\ \E c \in 1..Len(cn) : Finish(c)
    \/ U /\ \E i \in 1..Len(calls) : Reply(i)
    \/ U /\ NumIn < NIn /\ \E how \in {"up", "stall"} : Dialled(how, NumIn + 1)
    \/ U /\ Len(closers) < 1 /\ CallClose
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
