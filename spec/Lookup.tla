--------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Looking for the peers closest to a target.  finds: f -> [target, max,   *)
(* learned, asked, answered, over], all sets of keys.  Peers that answer   *)
(* do so with the keys in knows; the others are dead, too slow, or answer  *)
(* something else.                                                         *)
(***************************************************************************)
EXTENDS Table

VARIABLES g, ok, knows, finds
lvars == <<g, ok, knows, finds>>

\* Neither the node itself nor the target is asked.
Others(ks, t) == ks \ {g.self, t}
Nearest(ks, t, n) ==
    LET s == SetToSortSeq(ks, LAMBDA x, y : (x ^^ t) < (y ^^ t)) IN SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
Find(f, t, max, table) ==
    finds' = (f :> [target |-> t, max |-> max, learned |-> Range(Nearest(table \ {t}, t, g.cap)) \ {g.self}, asked |-> {}, answered |-> {}, over |-> FALSE]) @@ finds
\* Those learned are asked once.
Ask(f, p) ==
    /\ p \in finds[f].learned \ finds[f].asked /\ finds[f].over = FALSE
    /\ finds' = [finds EXCEPT ![f].asked = @ \cup {p}]
Answer(f, p) ==
    /\ p \in ok /\ p \in finds[f].asked \ finds[f].answered
    /\ finds' = [finds EXCEPT ![f].answered = @ \cup {p}, ![f].learned = @ \cup Others(knows[p], finds[f].target)]
Complete(f) == \A p \in finds[f].learned \cap ok : p \in finds[f].answered
Result(f) == Nearest(finds[f].answered, finds[f].target, finds[f].max)
End(f) == ~finds[f].over /\ Complete(f) /\ finds' = [finds EXCEPT ![f].over = TRUE]
=============================================================================
