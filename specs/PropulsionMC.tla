---------------------------- MODULE PropulsionMC ----------------------------
EXTENDS Propulsion, Json
CONSTANTS N, Emit
VARIABLES nets, hist
K == 1..2  P == 1..2
\* one engine alone, by kind, slot and state; state 2 is state 1 at full throttle
U == [k \in K |-> [s \in 1..3 |-> [p \in P |-> <<100 * k * p + 7 * s, 10 * s, 5 * k * p, 50 * k + p * s, IF k = 2 THEN p ELSE 0>>]]]
full == <<2, 2>>
flux == <<300, 300>>
Blank(ks) == [groups |-> <<[kinds |-> ks, n |-> 2, same |-> TRUE, num |-> 1, den |-> 1]>>, gain |-> 0, load |-> 0]
G(i) == nets[i].groups[1]
Init == nets = <<>> /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
Next ==
  /\ Len(hist) < N
  /\ \/ /\ Len(nets) < 2
        /\ \E a, b \in K : nets' = Append(nets, Blank(<<a, b, a>>)) /\ Op([op |-> "net", i |-> Len(nets) + 1, ks |-> <<a, b, a>>])
     \/ \E i \in 1..Len(nets), n \in 1..3 : n # G(i).n /\ nets' = [nets EXCEPT ![i] = SetN(@, 1, n)] /\ Op([op |-> "n", i |-> i, n |-> n])
     \/ \E i \in 1..Len(nets) : nets' = [nets EXCEPT ![i] = SetSame(@, 1, ~G(i).same)] /\ Op([op |-> "same", i |-> i, b |-> ~G(i).same])
     \/ \E i \in 1..Len(nets), t \in {200, 300} : nets' = [nets EXCEPT ![i] = Size(@, t)] /\ Op([op |-> "size", i |-> i, t |-> t])
Spec == Init /\ [][Next]_<<nets, hist>>
Q == 1..5
N1(i, j) == [nets[i] EXCEPT !.groups[1] = [@ EXCEPT !.kinds = IF G(i).same THEN <<@[1]>> ELSE <<@[j]>>, !.n = 1, !.same = TRUE]]
\* a network delivers what its engines deliver one by one
OneByOne == \A i \in 1..Len(nets) : (\A k \in K, s \in 1..3, p \in P : TRUE) =>
  \A p \in P : Net(U, flux, nets[i], p, 3) = Sum([j \in 1..G(i).n |-> Net(U, flux, N1(i, j), p, 3)], G(i).n)
\* networks add up in any order
Order == Len(nets) = 2 => \A p \in P, q \in Q : All(U, flux, nets, p, q) = All(U, flux, <<nets[2], nets[1]>>, p, q)
\* an engine out never adds; with one engine nothing is left
Lost == \A i \in 1..Len(nets), p \in P : Out(U, full, G(i), p, 1) <= Group(U, G(i), full[p], 1) /\ (G(i).n = 1 => Out(U, full, G(i), p, 1) = 0)
\* sizing for a total and then evaluating it with the engines it was sized with gives the total back
Sized == \A i \in 1..Len(nets) : (G(i).num # 1 /\ G(i).same /\ G(i).den = 100 * G(i).n) =>
  Near(Group(U, G(i), 1, 1) * 100, U[G(i).kinds[1]][1][1][1] * G(i).num, 400)
FuelSplit == \A i \in 1..Len(nets), p \in P : Net(U, flux, nets[i], p, 5) <= Net(U, flux, nets[i], p, 3)
GenPrint == (Emit /\ Len(hist) = N /\ Len(nets) > 0) => PrintT("HIST" \o ToJson(hist))
=============================================================================
