------------------------------- MODULE Lookup_MC ------------------------------
(* With any network of a few peers: lookups end, and what they find does    *)
(* not depend on the order in which peers are asked and answer.             *)
EXTENDS Lookup
CONSTANTS Peers, Self, Targets, MaxN, Cap
MInit == /\ g = [w |-> 4, cap |-> Cap, self |-> Self]
         /\ ok \in SUBSET Peers /\ knows \in [Peers -> SUBSET (Peers \cup {Self})] /\ finds = <<>>
MNext == /\ UNCHANGED <<g, ok, knows>>
         /\ IF finds = <<>> THEN \E t \in Targets, s \in SUBSET Peers : Find(1, t, MaxN, s \cup {Self})
            ELSE \/ \E p \in Peers : Ask(1, p) \/ Answer(1, p)
                 \/ /\ finds[1].learned \subseteq finds[1].asked /\ End(1)
MSpec == MInit /\ [][MNext]_lvars /\ WF_lvars(MNext)
RECURSIVE Reach(_, _)
Reach(s, t) == LET n == s \cup UNION {Others(knows[p], t) : p \in s \cap ok} IN IF n = s THEN s ELSE Reach(n, t)
\* learned only grows by what is reachable, so the outcome is that of reaching everything there is.
Exact == finds # <<>> => LET f == finds[1] IN
    /\ f.asked \subseteq f.learned /\ f.answered \subseteq ok /\ g.self \notin f.learned /\ f.target \notin f.learned
    /\ f.over => f.learned = Reach(f.learned, f.target) /\ f.answered = f.learned \cap ok
    /\ f.over => \A p \in (f.learned \cap ok) \ Range(Result(1)) : Len(Result(1)) = f.max /\ \A q \in Range(Result(1)) : (q ^^ f.target) < (p ^^ f.target)
Ends == <>(finds # <<>> /\ finds[1].over)
=============================================================================
