---------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* A routing table.  Keys are numbers below 2^w, read as w bits, most      *)
(* significant first; entries are [k, a] with a key and an address.        *)
(* b[i] is bucket i, most recently updated entry first.  g is what does    *)
(* not change: [w, cap (of buckets), self (the owner's key), addr (its     *)
(* address), zero (the key that is never stored)].                         *)
(*                                                                         *)
(* The 256 bits of real keys are cut down to those in which keys of a      *)
(* scenario first differ, which keeps how many keys share a bucket, how    *)
(* buckets follow each other, and how distances compare.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Bitwise

RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
\* How many leading bits two keys share.
Shared(g, x, y) == g.w - Bits(x ^^ y)
\* The owner's key comes with those that differ from it in the last bit only.
Place(g, k) == IF k = g.self THEN g.w - 1 ELSE Shared(g, g.self, k)
All(f) == UNION {Range(f[i]) : i \in DOMAIN f}
Of(f, g, k) == f[Place(g, k)]
Has(f, g, k) == \E e \in Range(Of(f, g, k)) : e.k = k
Entry(f, g, k) == CHOOSE e \in Range(Of(f, g, k)) : e.k = k
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)

InitTable(g) == [i \in 0..g.w - 1 |-> IF i = g.w - 1 /\ g.self # g.zero THEN <<[k |-> g.self, a |-> g.addr]>> ELSE <<>>]

\* Updates with the zero key are as if its entry was there already.
UpdateOut(f, g, k) ==
    IF k = g.zero THEN "known" ELSE IF Has(f, g, k) THEN "known" ELSE IF Len(Of(f, g, k)) < g.cap THEN "new" ELSE "full"
InFront(s, e) == <<e>> \o Without(s, e)
Updated(f, g, k, a) ==
    LET i == Place(g, k)
        out == UpdateOut(f, g, k)
    IN IF k = g.zero THEN f
       ELSE IF out = "full" THEN f
       ELSE IF out = "new" THEN [f EXCEPT ![i] = InFront(@, [k |-> k, a |-> a])]
       ELSE [f EXCEPT ![i] = InFront(@, Entry(f, g, k))]
Removed(f, g, e) == [f EXCEPT ![Place(g, e.k)] = Without(@, e)]

\* The n entries closest to t other than t itself, closest first.
Closest(f, t, n) ==
    LET s == SetToSortSeq({e \in All(f) : e.k # t}, LAMBDA x, y : (x.k ^^ t) < (y.k ^^ t))
    IN SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)

\* What operation o may do to the table and tell: the new tables and outcomes. Each takes effect at one moment.
Told(f, out) == {[f |-> f, out |-> out]}
Nothing == [s |-> "none"]
Found(e) == [s |-> "ok", e |-> e]
Does(f, g, o) ==
    CASE o.ev = "update" -> Told(Updated(f, g, o.k, o.a), [s |-> UpdateOut(f, g, o.k)])
      [] o.ev = "delete" -> IF Has(f, g, o.k) THEN Told(Removed(f, g, Entry(f, g, o.k)), Found(Entry(f, g, o.k))) ELSE Told(f, Nothing)
      [] o.ev = "deladdr" -> LET here == {e \in All(f) : e.a = o.a}
                             IN IF here = {} THEN Told(f, Nothing) ELSE {[f |-> Removed(f, g, e), out |-> Found(e)] : e \in here}
      [] o.ev = "recorded" -> Told(f, [s |-> IF Has(f, g, o.k) THEN "yes" ELSE "no"])
      [] o.ev = "last" -> Told(f, IF Of(f, g, o.k) = <<>> THEN Nothing ELSE Found(Last(Of(f, g, o.k))))
      [] o.ev = "bucket" -> Told(f, [s |-> "list", es |-> Of(f, g, o.k)])
      [] o.ev = "entries" -> Told(f, [s |-> "set", es |-> All(f), n |-> Cardinality(All(f))])
      [] o.ev = "num" -> Told(f, [s |-> "num", n |-> Cardinality(All(f))])
      [] o.ev = "closest" -> Told(f, [s |-> "list", es |-> Closest(f, o.k, o.n)])
=============================================================================
