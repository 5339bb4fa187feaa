----------------------------- MODULE Hostile_Gen -----------------------------
(* What hostile peers send, withhold and have the node do, at any stage.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Depth, Workers,
          Each   \* TRUE: one of everything, one at a time
VARIABLES cfg, stage, h
gv == <<cfg, stage, h>>
R(S) == {RandomElement(S)}
Line == {"nothing", "bytes", "header", "huge", "over", "empty", "halfframe", "drip"}
Kex == Line \cup {"short", "long", "half", "badsig", "low", "junkkey", "zerokey", "reflect", "hello"}
Id == Line \cup {"plain", "flip", "short", "long", "half", "tiny", "reflect", "replay", "notmine", "zeros", "msg", "again"}
Msgs == {"shortmsg", "app", "op", "find", "found", "gossip", "answer", "twice", "mangled", "ping", "request", "flood", "deaf"}
Up == (Line \cup {"flip", "plain", "tiny", "replay", "reflect"}) \cup Msgs
Ways == {"close", "rst", "half", "late"}
Addrs == {"own", "canary", "node", "zero", "stall", "refuse", "v6", "hole"}
Replies == {"pong", "silent", "junk", "wrong", "twice", "foundbad", "foundmany", "drop", "error", "empty", "slow"}
NodeOps == {"ping", "find", "request", "push", "send"}
CanaryOps == {"request", "fresh", "asked", "gossip", "lookup"}

What(s) == IF s = "kex" THEN Kex ELSE IF s = "id" THEN Id ELSE Up
OpenIt(i, side, addr, reply) == [ev |-> "open", h |-> i, side |-> side, addr |-> addr, reply |-> reply]
Do(i, w) == [ev |-> "bad", h |-> i, what |-> w]
Init == /\ stage = [i \in 1..N |-> "none"] /\ h = <<>>
        /\ \E w \in Workers, d \in {300, 1000} : cfg = [workers |-> w, idle |-> d]
Say(x) == h' = Append(h, x)
Step(i) ==
    \/ /\ stage[i] = "none" /\ stage' = [stage EXCEPT ![i] = "kex"]
       /\ \E s \in R({"in", "in", "out"}), a \in R(Addrs), r \in R(Replies) : Say(OpenIt(i, s, a, r))
    \/ /\ stage[i] \in {"kex", "id"} /\ \E g \in R(1..6) :
            IF g > 1 THEN stage' = [stage EXCEPT ![i] = IF stage[i] = "kex" THEN "id" ELSE "up"] /\ Say([ev |-> "good", h |-> i])
            ELSE stage' = [stage EXCEPT ![i] = "off"] /\ \E w \in R(What(stage[i])) : Say(Do(i, w))
    \/ /\ stage[i] = "up" /\ stage' = stage
       /\ \E g \in R(1..5) : \E w \in R(IF g > 1 THEN Msgs ELSE Up), o \in R(NodeOps), r \in R(Replies) :
            IF g = 5 THEN Say([ev |-> "node", op |-> o, h |-> i, reply |-> r]) ELSE Say(Do(i, w))
    \/ /\ stage[i] = "off" /\ stage' = [stage EXCEPT ![i] = "none"] /\ \E w \in R(Ways) : Say([ev |-> "leave", h |-> i, how |-> w])
Canary == stage' = stage /\ \E c \in R(CanaryOps) : Say([ev |-> "canary", op |-> c])
Next == /\ ~Each /\ Len(h) < Depth /\ cfg' = cfg
        /\ \E w \in R(1..5), i \in R(1..N) : IF w = 1 THEN Canary ELSE
             \E k \in R(1..12) : IF k = 12 /\ stage[i] # "none" THEN stage' = [stage EXCEPT ![i] = "none"] /\ \E x \in R(Ways) : Say([ev |-> "leave", h |-> i, how |-> x])
                                ELSE Step(i)
Spec == Init /\ [][Next]_gv

\* One of everything.
Good(n) == [i \in 1..n |-> [ev |-> "good", h |-> 1]]
After(x, how) == <<x, [ev |-> "canary", op |-> "request"], [ev |-> "canary", op |-> "gossip"], [ev |-> "leave", h |-> 1, how |-> how],
                   [ev |-> "canary", op |-> "fresh"], [ev |-> "canary", op |-> "asked"]>>
Single == UNION {
    {<<OpenIt(1, s, "own", "pong")>> \o Good(0) \o After(Do(1, w), how) : s \in {"in", "out"}, w \in Kex, how \in Ways},
    {<<OpenIt(1, s, "own", "pong")>> \o Good(1) \o After(Do(1, w), how) : s \in {"in", "out"}, w \in Id, how \in Ways},
    {<<OpenIt(1, s, a, "pong")>> \o Good(2) \o After(Do(1, w), "close") : s \in {"in", "out"}, a \in Addrs, w \in Up},
    {<<OpenIt(1, s, a, r)>> \o Good(2) \o After([ev |-> "node", op |-> o, h |-> 1, reply |-> r], how) : s \in {"in", "out"}, a \in {"own", "stall"}, r \in Replies, o \in NodeOps, how \in Ways}}
EachInit == /\ stage = [i \in 1..N |-> "none"] /\ cfg \in [workers : Workers, idle : {500}] /\ h \in Single
EachSpec == EachInit /\ [][FALSE]_gv
Emit == (Each \/ Len(h) = Depth) => PrintT("PLAN " \o ToJson([cfg |-> cfg, steps |-> h]))
=============================================================================
