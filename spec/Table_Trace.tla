----------------------------- MODULE Table_Trace ------------------------------
(* Checks what a routing table was seen to do.  Calls come with their       *)
(* outcomes, and take effect at one moment before they return.              *)
EXTENDS Table, TraceBatch
VARIABLES b, g, calls
tvars == <<b, g, calls, tr, l>>
TInit == BatchInit /\ g = [w |-> 0] /\ b = <<>> /\ calls = <<>>
Set(out) == IF out.s = "set" THEN [out EXCEPT !.es = Range(@)] ELSE out
Effect(i) == \E r \in Does(b, g, calls[i].op) :
    /\ (r.out = Set(calls[i].out)) = TRUE
    /\ b' = r.f /\ calls' = [calls EXCEPT ![i].done = TRUE]
TNext ==
    \/ IsEvent("table") /\ g' = Step.g /\ b' = InitTable(Step.g) /\ UNCHANGED calls
    \* What is closest is judged by what the table lists.
    \/ IsEvent("listing") /\ b' = [i \in {0} |-> Step.es] /\ UNCHANGED <<g, calls>>
    \/ IsEvent("call") /\ calls' = (Step.i :> [op |-> Step.op, out |-> Step.out, done |-> FALSE]) @@ calls /\ UNCHANGED <<b, g>>
    \/ More /\ Step.ev = "ret" /\ IF calls[Step.i].done
          THEN IsEvent("ret") /\ calls' = [j \in DOMAIN calls \ {Step.i} |-> calls[j]] /\ UNCHANGED <<b, g>>
          ELSE (\E i \in DOMAIN calls : calls[i].done = FALSE /\ Effect(i)) /\ UNCHANGED <<g, tr, l>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
