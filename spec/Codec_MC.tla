------------------------------ MODULE Codec_MC --------------------------------
EXTENDS Codec
CONSTANTS MaxCalls, Nodes
T == {[k |-> k, n |-> n] : k \in {"s", "p"}, n \in {1, 2}} \cup {[k |-> "l", n |-> 1]}
V == {<<>>, <<1>>, <<255>>, <<0, 255>>}
MInit == InitWith(Nodes)
Ops == {[ev |-> "register", x |-> x, t |-> t, dec |-> d] : x \in Nodes, t \in T, d \in T \cup {[k |-> "odd", n |-> 1]}}
       \cup {[ev |-> "encode", x |-> x, t |-> t, v |-> <<1>>] : x \in Nodes, t \in T}
MNext == \/ \E i \in 1..MaxCalls, o \in Ops : i \notin DOMAIN calls /\ (o.ev = "register" => o.dec = o.t \/ o.t.n = 1) /\ Call(i, o)
         \/ \E i \in DOMAIN calls : Effect(i) \/ Return(i)
MSpec == MInit /\ [][MNext]_vars
Survives == RoundTrip(V)
\* Registrations are only ever added to, and never by one that panics.
Grows == [][\A x \in Nodes : Len(reg'[x]) >= Len(reg[x]) /\ SubSeq(reg'[x], 1, Len(reg[x])) = reg[x]]_vars
=============================================================================
