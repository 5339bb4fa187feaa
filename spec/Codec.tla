--------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Registries of message types, one for each node: the types registered,   *)
(* in order, which is what gives them their opcodes.  Encoding and         *)
(* decoding are functions of the registry.                                 *)
(*                                                                         *)
(* A type is [k, n]: k is "s" for a struct, "p" for a pointer to that      *)
(* struct, "l" for a slice of bytes.  Content is a sequence of bytes; the  *)
(* decoders of all types fail for content that starts with 255.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES reg,   \* node -> sequence of types
          calls  \* calls under way: id -> [op : what is called, done : whether it has taken effect, out : with what outcome]
vars == <<reg, calls>>

InitWith(N) == reg = [x \in N |-> <<>>] /\ calls = <<>>

Has(r, t) == \E i \in 1..Len(r) : r[i] = t
Opcode(r, t) == (CHOOSE i \in 1..Len(r) : r[i] = t) - 1
Bytes(c) == <<c \div 256, c % 256>>
\* What a pointer points to stands in for it, if only that is registered.
Known(r, t) == IF Has(r, t) THEN t ELSE IF t.k = "p" THEN [t EXCEPT !.k = "s"] ELSE t

Err == [s |-> "err"]
\* dec: the type the decoder yields, or something that is no decoder.
RegisterOut(r, t, dec) == IF Has(r, t) \/ dec # t THEN [s |-> "panic"] ELSE [s |-> "ok", op |-> Len(r)]
EncodeOut(r, t, v) == IF Has(r, Known(r, t)) THEN [s |-> "ok", b |-> Bytes(Opcode(r, Known(r, t))) \o v] ELSE Err
DecodeOut(r, b) ==
    IF Len(b) < 2 THEN Err
    ELSE LET i == b[1] * 256 + b[2] + 1
             v == SubSeq(b, 3, Len(b))
         IN IF i > Len(r) THEN Err ELSE IF v # <<>> /\ Head(v) = 255 THEN Err ELSE [s |-> "ok", t |-> r[i], v |-> v]
\* A value is sent to another node, which sends back what it takes it for.
AskOut(r1, r2, t, v) ==
    LET e == EncodeOut(r1, t, v)
        d == DecodeOut(r2, e.b)
        e2 == EncodeOut(r2, d.t, d.v)
    IN IF e.s # "ok" THEN Err ELSE IF d.s # "ok" THEN Err ELSE IF e2.s # "ok" THEN Err ELSE DecodeOut(r1, e2.b)

Out(o) == CASE o.ev = "register" -> RegisterOut(reg[o.x], o.t, o.dec)
            [] o.ev = "encode" -> EncodeOut(reg[o.x], o.t, o.v)
            [] o.ev = "decode" -> DecodeOut(reg[o.x], o.b)
            [] o.ev = "ask" -> AskOut(reg[o.x], reg[o.y], o.t, o.v)

Call(i, o) == calls' = (i :> [op |-> o, done |-> FALSE, out |-> Err]) @@ calls /\ UNCHANGED reg
\* It takes effect at one moment.
Effect(i) ==
    /\ i \in DOMAIN calls /\ ~calls[i].done
    /\ LET o == calls[i].op IN
       /\ calls' = [calls EXCEPT ![i].done = TRUE, ![i].out = Out(o)]
       /\ reg' = IF o.ev = "register" /\ Out(o).s = "ok" THEN [reg EXCEPT ![o.x] = Append(@, o.t)] ELSE reg
Return(i) ==
    /\ i \in DOMAIN calls /\ calls[i].done
    /\ calls' = [j \in DOMAIN calls \ {i} |-> calls[j]]
    /\ UNCHANGED reg

-----------------------------------------------------------------------------
OneToOne == \A x \in DOMAIN reg : \A i, j \in 1..Len(reg[x]) : reg[x][i] = reg[x][j] => i = j
\* Same registrations, same values.
RoundTrip(V) == \A x, y \in DOMAIN reg : reg[x] = reg[y] =>
    \A i \in 1..Len(reg[x]), v \in V :
        LET e == EncodeOut(reg[x], reg[x][i], v)
        IN /\ e.s = "ok" /\ SubSeq(e.b, 1, 2) = Bytes(i - 1) /\ SubSeq(e.b, 3, Len(e.b)) = v
           /\ DecodeOut(reg[y], e.b) = IF v # <<>> /\ Head(v) = 255 THEN Err ELSE [s |-> "ok", t |-> reg[x][i], v |-> v]
=============================================================================
