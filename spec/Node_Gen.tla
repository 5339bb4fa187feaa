------------------------------- MODULE Node_Gen -------------------------------
(***************************************************************************)
(* Histories of what the environment of a node does, together with what is *)
(* to be seen of the node when it has come to rest.  With Race, things go  *)
(* on while it has not.                                                    *)
(***************************************************************************)
EXTENDS NodeObs, Json
CONSTANTS A, MaxOuts, MaxIns, AttemptsSet, ListensSet, Kinds, Modes0, Modes, NCalls, NIn, NClose, Depth, Race, Equal, Weights
VARIABLE h
gvars == <<vars, h>>
GInit == \E m \in [1..A -> Modes0], mo \in MaxOuts, mi \in MaxIns, at \in AttemptsSet, li \in ListensSet :
    /\ Equal => mo = mi
    /\ InitWith([maxout |-> mo, maxin |-> mi, attempts |-> at, listens |-> li], 1..A, m)
    /\ h = <<[ev |-> "setup", modes |-> m]>>
Do(x) == h' = Append(h, x)
AtRest == h[Len(h)].ev \in {"quiet", "setup"}
NumIn == Cardinality({c \in 1..Len(cn) : cn[c].dir = "in"})
Stimulus ==
    \/ Len(calls) < NCalls /\ \E w \in 1..Weights.call, k \in Kinds, a \in 1..A :
          /\ (Race => Len(calls) < NCalls)
          /\ Call(k, a, "live") /\ Do([ev |-> "call", k |-> k, a |-> a, ctx |-> "live"])
    \/ Len(calls) < NCalls /\ \E k \in Kinds, a \in 1..A : Weights.ended > 0 /\ Call(k, a, "ended") /\ Do([ev |-> "call", k |-> k, a |-> a, ctx |-> "ended"])
    \/ \E w \in 1..Weights.ctx, i \in 1..Len(calls) : calls[i].s \notin {"ok", "err"} /\ EndCtx(i) /\ Do([ev |-> "endctx", i |-> i])
    \/ \E w \in 1..Weights.mode, a \in 1..A, m \in Modes : mode[a] # "refuse" /\ m # mode[a] /\ SetMode(a, m) /\ Do([ev |-> "mode", a |-> a, m |-> m])
    \/ \E w \in 1..Weights.finish, c \in 1..Len(cn) : cn[c].j > 0 /\ Finish(c) /\ Do([ev |-> "finish", id |-> Id(c)])
    \/ \E w \in 1..Weights.drop, c \in 1..Len(cn) : cn[c].j > 0 /\ Drop(c) /\ Do([ev |-> "drop", id |-> Id(c), up |-> cn[c].s = "up"])
    \/ \E w \in 1..Weights.reply, i \in 1..Len(calls) : Reply(i) /\ Do([ev |-> "reply", i |-> i])
    \/ NumIn < NIn /\ \E w \in 1..Weights.dial, how \in {"up", "stall"} : Dialled(how, NumIn + 1) /\ Do([ev |-> "dial", how |-> how, j |-> NumIn + 1])
    \/ Len(closers) < NClose /\ Len(h) > 3 /\ \E w \in 1..Weights.close : CallClose /\ Do([ev |-> "close"])
GNext ==
    \/ Internal /\ UNCHANGED h
    \/ Quiet = TRUE /\ ~AtRest /\ UNCHANGED vars /\ Do([ev |-> "quiet", obs |-> Obs])
    \/ (AtRest \/ (Race /\ h[Len(h)].ev # "quiet")) = TRUE /\ (Race \/ Quiet) = TRUE /\ Len(h) < Depth /\ Stimulus
GSpec == GInit /\ [][GNext]_gvars
Emit == (Len(h) >= Depth /\ Quiet /\ AtRest) => PrintT("PLAN " \o ToJson([cfg |-> cf, addrs |-> A, race |-> Race, steps |-> h]))
W == [call |-> 2, ended |-> 0, ctx |-> 1, mode |-> 1, finish |-> 1, drop |-> 1, reply |-> 1, dial |-> 1, close |-> 1]
WCalls == [W EXCEPT !.call = 5, !.drop = 2, !.mode = 0, !.ctx = 0]
WDials == [W EXCEPT !.call = 3, !.ended = 1, !.drop = 0, !.mode = 2, !.reply = 0]
WCtx == [W EXCEPT !.call = 3, !.ctx = 4, !.finish = 2, !.mode = 0, !.reply = 2]
WPools == [W EXCEPT !.call = 3, !.dial = 3, !.ctx = 0]
WClose == [W EXCEPT !.close = 2, !.dial = 2, !.call = 3]
=============================================================================
