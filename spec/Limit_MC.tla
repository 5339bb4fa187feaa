------------------------------- MODULE Limit_MC -------------------------------
EXTENDS Limit, FiniteSets
CONSTANTS Conns, MaxFrames
VARIABLES lim, sent
vars == <<lvars, lim, sent>>
Sizes == {<<0, 0>>, <<0, 35>>, <<0, 36>>, <<0, 95>>, <<0, 96>>, <<0, 142>>, <<0, 143>>, <<1, 0>>, <<1, 1>>, <<65535, 65535>>}
MInit == InitL(Conns) /\ lim \in Sizes /\ sent = [c \in Conns |-> <<>>]
MNext == \/ \E c \in Conns : Connect(lim, c, <<<<0, 96>>, <<0, 142>>>>) /\ UNCHANGED <<lim, sent>>
         \/ \E c \in Conns, s \in Sizes, w \in BOOLEAN : Len(sent[c]) < MaxFrames /\ Frame(lim, c, s, w)
               /\ sent' = (IF w THEN [sent EXCEPT ![c] = Append(@, s)] ELSE sent) /\ UNCHANGED lim
MSpec == MInit /\ [][MNext]_vars
Inv == NoneTooLarge(lim) /\ NothingAllocated
\* What is small enough is handled, also what came before and what comes on other connections.
AllHandled == \A c \in Conns : conn[c] = "up" => handled[c] = sent[c]
ClosedForAReason == \A c \in Conns : conn[c] \in {"toolarge", "bad"} => lim # <<0, 0>> \/ \E i \in 1..Len(sent[c]) : ~LE(Smallest, sent[c][i])
Alone == [][Cardinality({c \in Conns : conn'[c] # conn[c]}) <= 1]_vars
=============================================================================
