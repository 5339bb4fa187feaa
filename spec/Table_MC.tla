-------------------------------- MODULE Table_MC ------------------------------
EXTENDS Table
CONSTANTS W, Cap, Self, Zero, Addrs
VARIABLE b
g == [w |-> W, cap |-> Cap, self |-> Self, addr |-> 0, zero |-> Zero]
Keys == 0..2^W - 1
MInit == b = InitTable(g)
Ops == [ev : {"update"}, k : Keys, a : Addrs] \cup [ev : {"delete"}, k : Keys] \cup [ev : {"deladdr"}, a : Addrs]
Reads == [ev : {"recorded", "last", "bucket"}, k : Keys] \cup [ev : {"entries", "num"}] \cup [ev : {"closest"}, k : Keys, n : 0..Cap + 1]
MNext == \E o \in Ops : \E r \in Does(b, g, o) : b' = r.f
MSpec == MInit /\ [][MNext]_b
NoDuplicates == \A i, j \in DOMAIN b : \A m \in 1..Len(b[i]), n \in 1..Len(b[j]) : b[i][m].k = b[j][n].k => i = j /\ m = n
Bounded == \A i \in DOMAIN b : Len(b[i]) <= Cap
bit(x, n) == (x \div 2^(W - 1 - n)) % 2
InPlace == \A i \in DOMAIN b : \A e \in Range(b[i]) : e.k # Self => \A j \in 0..W - 1 :
    (j < i => bit(e.k, j) = bit(Self, j)) /\ (j = i => bit(e.k, j) # bit(Self, j))
NoZero == \A e \in All(b) : e.k # Zero
\* How the node does it: the bucket of the target, then those past it, then one after another those before it.
Others(i, t) == {e \in Range(b[i]) : e.k # t}
RECURSIVE Down(_, _, _, _)
Down(acc, t, n, i) == IF Cardinality(acc) >= n \/ i < 0 THEN acc ELSE Down(acc \cup Others(i, t), t, n, i - 1)
Walk(t, n) ==
    LET i == Place(g, t)
        here == Others(i, t)
        past == IF Cardinality(here) < n THEN here \cup UNION {Others(j, t) : j \in i + 1..W - 1} ELSE here
        s == SetToSortSeq(Down(past, t, n, i - 1), LAMBDA x, y : (x.k ^^ t) < (y.k ^^ t))
    IN SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
WalkIsExact == \A t \in Keys, n \in 0..Cap + 1 : Walk(t, n) = Closest(b, t, n)
ReadsOnly == \A o \in Reads : \A r \in Does(b, g, o) : r.f = b
\* An operation concerns one bucket, and only reorders it, puts one entry in front or takes one out.
OneAtATime == [][/\ Cardinality({i \in DOMAIN b : b'[i] # b[i]}) <= 1
                 /\ Cardinality(All(b) \ All(b')) + Cardinality(All(b') \ All(b)) <= 1]_b
=============================================================================
