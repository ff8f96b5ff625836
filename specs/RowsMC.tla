------------------------------- MODULE RowsMC -------------------------------
(* All pairs/triples of small states; expansion, joining and handing back.         *)
EXTENDS Rows, Json
CONSTANTS N, Segs, Emit
VARIABLES states, phase, vec
A(p, m) == [p |-> p, t |-> "arr", m |-> m, adj |-> 0, n |-> 0]
C(p) == [p |-> p, t |-> "cond", m |-> <<>>, adj |-> 0, n |-> 1]
X(p, v, a) == [p |-> p, t |-> "exp", m |-> <<<<v>>>>, adj |-> a, n |-> 0]
Row(w, b) == <<[j \in 1..w |-> 10 * b + j]>>
Unknown(k, w, b) == {<<>>, <<A(<<"unknowns", k>>, Row(w, b))>>}
Init == /\ phase = "made" /\ vec = <<>>
        /\ \E ks \in [1..Segs -> SUBSET {"u", "w", "e"}] :
             states = [k \in 1..Segs |->
               <<C(<<>>), C(<<"unknowns">>)>> \o (IF "u" \in ks[k] THEN <<A(<<"unknowns", "u">>, Row(1, k))>> ELSE <<>>)
               \o (IF "w" \in ks[k] THEN <<A(<<"unknowns", "w">>, Row(2, k + 3))>> ELSE <<>>)
               \o (IF "e" \in ks[k] THEN <<X(<<"unknowns", "e">>, 100 + k, 1)>> ELSE <<>>)
               \o <<C(<<"residuals">>)>> \o (IF "u" \in ks[k] THEN <<A(<<"residuals", "u">>, <<<<0>>>>)>> ELSE <<>>)
               \o (IF "w" \in ks[k] THEN <<A(<<"residuals", "w">>, <<<<0, 0>>>>)>> ELSE <<>>)
               \o <<C(<<"conditions">>), A(<<"conditions", "c">>, Row(2, k)), [p |-> <<"conditions", "d">>, t |-> "data", m |-> <<>>, adj |-> 0, n |-> 0],
                    A(<<"conditions", "d", "y">>, Row(1, k)), C(<<"numerics">>), A(<<"numerics", "z">>, Row(1, k))>>]
Rows(ns) == [k \in 1..Segs |-> Expand(states[k], ns[k], FALSE)]
Next == \/ phase = "made" /\ \E ns \in [1..Segs -> 3..N] : states' = Rows(ns) /\ phase' = "grown" /\ UNCHANGED vec
        \/ phase = "grown" /\ phase' = "solved" /\ LET j == Join(states)  l == Len(Pack(j, "unknowns")) IN
             vec' = [i \in 1..l |-> 1000 + i] /\ states' = Iterated(states, j, vec')
Spec == Init /\ [][Next]_<<states, phase, vec>>
Every(P(_)) == \A k \in 1..Segs : \A i \in 1..Len(states[k]) : P(states[k][i])
Grown1 == phase = "grown" => \A k \in 1..Segs : Expand(states[k], 4, FALSE) = Map(states[k], LAMBDA x :
             IF x.t = "cond" /\ Reached(states[k], x.p) THEN [x EXCEPT !.n = 4] ELSE x)           \* what has rows keeps them
KeptOut == Every(LAMBDA x : x.p = <<"numerics", "z">> => Len(x.m) = 1)
PlainData == Every(LAMBDA x : x.p = <<"conditions", "d", "y">> => Len(x.m) = 1)
J == Join(states)
NothingLost == phase # "made" => Len(Pack(J, "unknowns")) = LET F[k \in 0..Segs] == IF k = 0 THEN 0 ELSE F[k - 1] + Len(Pack(states[k], "unknowns")) IN F[Segs]
Ordered == phase # "made" => LET F[k \in 0..Segs] == IF k = 0 THEN <<>> ELSE F[k - 1] \o Node(states[k], <<"conditions", "c">>).m
                             IN Node(J, <<"conditions", "c">>).m = F[Segs]
RoundTrip == phase # "made" => Handed(states, J, Pack(J, "unknowns")) = states
Answers == phase = "solved" => /\ Pack(J, "unknowns") = vec
             /\ \A i \in 1..Len(J) : J[i].p \in {<<"residuals", "u">>, <<"residuals", "w">>} => J[i].m = Plus(Node(J, <<"unknowns", J[i].p[2]>>).m)
GenPrint == Emit => (phase # "grown" \/ PrintT("HIST" \o ToJson([k \in 1..Segs |-> [keys |-> Map(Arrays(states[k], "unknowns"), LAMBDA x : x.p[2]),
                 rows |-> Len(Node(states[k], <<"conditions", "c">>).m)]])))
=============================================================================
