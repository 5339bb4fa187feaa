--------------------------- MODULE Registration_Gen ---------------------------
(* Who registers what, and when. Handlers and protocols are numbered as they come up. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Threads, PerThread, Race, Closes, Fails
VARIABLES th, cur, nh, np, protos, after
vars == <<th, cur, nh, np, protos, after>>
Ids(n, k) == [i \in 1..k |-> n + i]
Init == th = <<>> /\ cur = <<>> /\ nh = 1 /\ np = 0 /\ protos = <<>> /\ after = <<>>
\* What the bind callback of a protocol does: none (there is no callback), ok, fail, and what it registers itself.
Binds == {[b |-> b, subs |-> s] : b \in {"none"}, s \in {<<>>}}
         \cup {[b |-> "ok", subs |-> s] : s \in {<<>>, <<"h">>, <<"p">>, <<"h", "p">>, <<"p", "h", "h">>, <<"hh">>}}
         \cup (IF Fails THEN {[b |-> "fail", subs |-> s] : s \in {<<>>, <<"p">>}} ELSE {})
         \cup (IF Closes THEN {[b |-> "close", subs |-> <<>>]} ELSE {})
Op(o) == cur' = Append(cur, o) /\ UNCHANGED <<th, after>>
Next ==
    IF Len(th) < Threads
    THEN IF Len(cur) = PerThread THEN th' = Append(th, cur) /\ cur' = <<>> /\ UNCHANGED <<nh, np, protos, after>>
         ELSE \/ \E k \in 1..3 : Op([ev |-> "register", k |-> "h", ids |-> Ids(nh, k)]) /\ nh' = nh + k /\ UNCHANGED <<np, protos>>
              \/ \E k \in 0..1 : k = 0 /\ Op([ev |-> "register", k |-> "h", ids |-> <<nh>>]) /\ UNCHANGED <<np, protos, nh>>
              \/ \E x, y \in Binds, k \in 1..2 :
                    /\ Op([ev |-> "register", k |-> "p", ids |-> Ids(np, k)]) /\ np' = np + k
                    /\ protos' = protos \o SubSeq(<<x, y>>, 1, k) /\ UNCHANGED nh
              \/ \E k \in 1..2 : Race /\ Op([ev |-> "pause", us |-> 100 * k]) /\ UNCHANGED <<nh, np, protos>>
              \/ Closes /\ Op([ev |-> "close"]) /\ UNCHANGED <<nh, np, protos>>
    ELSE /\ Len(after) < 3
         /\ \/ after' = Append(after, [ev |-> "register", k |-> "h", ids |-> <<nh + 1>>]) /\ nh' = nh + 1 /\ UNCHANGED <<np, protos>>
            \/ after' = Append(after, [ev |-> "register", k |-> "p", ids |-> <<np + 1>>]) /\ np' = np + 1 /\ protos' = Append(protos, [b |-> "ok", subs |-> <<>>]) /\ UNCHANGED nh
            \/ after' = Append(after, [ev |-> "again"]) /\ UNCHANGED <<nh, np, protos>>
         /\ UNCHANGED <<th, cur>>
Spec == Init /\ [][Next]_vars
Emit == Len(after) = 3 => PrintT("PLAN " \o ToJson([threads |-> th, protos |-> protos, after |-> after, nh |-> nh, race |-> Race]))
=============================================================================
