------------------------------- MODULE NodeObs -------------------------------
(* What can be seen of a node from outside, in a quiet state. *)
EXTENDS Node, SequencesExt
Id(c) == IF cn[c].dir = "in" THEN 9000 + cn[c].j ELSE 1000 * cn[c].a + cn[c].j
Listed(c) == IF cn[c].s = "up" THEN Id(c) ELSE 0
Sorted(S) == SetToSortSeq(S, <)
CallObs(k) == [s |-> IF k.s \in {"ok", "err"} THEN k.s ELSE "wait", e |-> k.e, id |-> IF k.s = "ok" /\ k.k = "ping" THEN Id(k.c) ELSE 0]
Obs == [
    out |-> [i \in 1..Len(out) |-> Listed(out[i])],
    inn |-> [i \in 1..Len(inn) |-> Listed(inn[i])],
    calls |-> [i \in 1..Len(calls) |-> CallObs(calls[i])],
    con |-> Sorted({Id(c) : c \in {x \in 1..Len(cn) : cn[x].was}}),
    dis |-> Sorted({Id(c) : c \in {x \in 1..Len(cn) : cn[x].dis}}),
    live |-> Sorted({Id(c) : c \in {x \in 1..Len(cn) : cn[x].s \in {"hs", "up"}}}),
    rcv |-> [i \in 1..Len(calls) |-> IF calls[i].rcv = 0 THEN 0 ELSE Id(calls[i].rcv)],
    pf |-> pf,
    acc |-> acc,
    ret |-> Cardinality({i \in 1..Len(closers) : closers[i] = "ret"})]
=============================================================================
