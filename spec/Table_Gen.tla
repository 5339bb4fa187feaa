------------------------------ MODULE Table_Gen -------------------------------
(* What is asked of a routing table, by one or by several threads.  Keys    *)
(* and addresses are numbered; which keys they are is up to the driver.     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Threads, PerThread, Keys, Addrs, Fill, Mode
VARIABLES h, th
R(S) == {RandomElement(S)}
Kind(ev) == \E k \in R(1..Keys) : h' = Append(h, [ev |-> ev, k |-> k])
Upd == \E k \in R(1..Keys), a \in R(1..Addrs) : h' = Append(h, [ev |-> "update", k |-> k, a |-> a])
Close == \E k \in R(1..Keys), n \in R({0, 1, 2, 3, 5, 16, 17, 40}) : h' = Append(h, [ev |-> "closest", k |-> k, n |-> n])
Op == \E w \in R(1..14) :
      IF w <= 4 \/ (Len(h) < Fill /\ th = <<>>) THEN Upd
      ELSE IF Mode = "closest" THEN IF w = 5 THEN Kind("delete") ELSE Close
      ELSE IF Mode = "race" THEN IF w <= 9 THEN Upd ELSE Close
      ELSE IF w = 5 THEN Kind("delete")
      ELSE IF w = 6 THEN \E a \in R(1..Addrs) : h' = Append(h, [ev |-> "deladdr", a |-> a])
      ELSE IF w <= 11 THEN \E ev \in R({"recorded", "last", "bucket"}) : Kind(ev)
      ELSE \E ev \in R({"entries", "num"}) : h' = Append(h, [ev |-> ev])
Init == h = <<>> /\ th = <<>>
Next == /\ Len(th) < Threads
        /\ IF Len(h) < PerThread + (IF th = <<>> THEN Fill ELSE 0) THEN Op /\ UNCHANGED th ELSE th' = Append(th, h) /\ h' = <<>>
Spec == Init /\ [][Next]_<<h, th>>
Emit == Len(th) = Threads => PrintT("PLAN " \o ToJson([threads |-> th]))
=============================================================================
