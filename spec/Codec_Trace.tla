----------------------------- MODULE Codec_Trace ------------------------------
(* Checks what registries were seen to do. *)
EXTENDS Codec, TraceBatch
tvars == <<vars, tr, l>>
TInit == BatchInit /\ InitWith(1..2)
Pending == {i \in DOMAIN calls : ~calls[i].done}
Agrees(out) == calls[Step.i].out = out
TNext ==
    \/ IsEvent("call") /\ Call(Step.i, Step.op)
    \* Taking effect no earlier than needed leaves the most room.
    \/ More /\ Step.ev = "ret" /\ IF calls[Step.i].done
          THEN Agrees(Step.out) = TRUE /\ IsEvent("ret") /\ Return(Step.i)
          ELSE \E i \in Pending : Effect(i) /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
