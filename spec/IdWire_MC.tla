------------------------------- MODULE IdWire_MC ------------------------------
EXTENDS IdWire, FiniteSets
VARIABLES xs, cut
Hosts == {<<1, 2, 3, 4>>, <<127, 0, 0, 1>>, Mapped \o <<1, 2, 3, 4>>, Zeros(16), Zeros(15) \o <<1>>, <<32, 1>> \o Zeros(13) \o <<9>>}
IDs == {[key |-> <<k>>, host |-> h, port |-> p] : k \in {0, 255}, h \in Hosts, p \in {0, 1, 255, 256, 65535}}
CONSTANT MaxList
Init == xs = <<>> /\ cut = 0
Next == \/ Len(xs) < MaxList /\ cut = 0 /\ \E x \in IDs : xs' = Append(xs, x) /\ UNCHANGED cut
        \/ cut < Len(EncodeList(xs)) /\ cut' = cut + 1 /\ UNCHANGED xs
Spec == Init /\ [][Next]_<<xs, cut>>
Survives == LET b == EncodeList(xs) IN
    /\ DecodeList(1, b) = [err |-> FALSE, list |-> [i \in 1..Len(xs) |-> Canonical(xs[i])]]
    /\ (cut > 0 => DecodeList(1, SubSeq(b, 1, Len(b) - cut)).err)
    /\ \A i \in 1..Len(xs) : AddressHost(xs[i]) = AddressHost(Decode(1, Encode(xs[i])))
ASSUME \A x, y \in IDs : Encode(x) = Encode(y) => Canonical(x) = Canonical(y)
=============================================================================
