--------------------------- MODULE Registration_MC ----------------------------
(* Threads that register, a bind callback that does, a listener and a closer. *)
EXTENDS Registration
CONSTANTS Protos, Failing, Nested, Threads, PerThread, Closes
VARIABLES left,    \* thread -> registrations it has yet to make
          bound,   \* protocols, in the order their bind callbacks returned without error
          inner    \* whether the callback under way has made its own registration
vars == <<rvars, left, bound, inner>>
MInit == InitR /\ left = [t \in Threads |-> PerThread] /\ bound = <<>> /\ inner = FALSE
\* Fresh handlers and protocols, for as long as there are any.
Regs == {[k |-> "h", ids |-> <<Len(hs) + 1>>], [k |-> "p", ids |-> <<Len(ps) + 1>>]}
Known(r) == r.k = "h" \/ r.ids[1] \in Protos
MNext ==
    \/ \E t \in Threads, r \in Regs : left[t] > 0 /\ Known(r) /\ Register(r) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<bound, inner>>
    \/ Listen /\ UNCHANGED <<left, bound, inner>>
    \/ \E p \in Protos : BindStart(p) /\ inner' = FALSE /\ UNCHANGED <<left, bound>>
    \/ inBind /\ Current \in Nested /\ ~inner /\ (\E r \in Regs : Known(r) /\ Register(r)) /\ inner' = TRUE /\ UNCHANGED <<left, bound>>
    \/ \E p \in Protos : BindEnd(p, p \notin Failing) /\ bound' = (IF p \in Failing THEN bound ELSE Append(bound, p)) /\ UNCHANGED <<left, inner>>
    \/ (Start \/ GiveUp) /\ UNCHANGED <<left, bound, inner>>
    \/ Closes /\ ~closed /\ Close /\ UNCHANGED <<left, bound, inner>>
MSpec == MInit /\ [][MNext]_vars
\* By the time it listens each protocol registered has been bound, once, in order.
AllBound == phase = "on" => bound = ps
FailsForAReason == phase = "failed" => closed \/ why \in Failing
LSpec == MSpec /\ WF_vars(Listen /\ UNCHANGED <<left, bound, inner>>)
               /\ WF_vars((Start \/ GiveUp) /\ UNCHANGED <<left, bound, inner>>)
               /\ WF_vars(\E p \in Protos : BindStart(p) /\ inner' = FALSE /\ UNCHANGED <<left, bound>>)
               /\ WF_vars(\E p \in Protos : BindEnd(p, p \notin Failing) /\ bound' = (IF p \in Failing THEN bound ELSE Append(bound, p)) /\ UNCHANGED <<left, inner>>)
Ends == <>(phase \in {"on", "failed"})
=============================================================================
