------------------------------- MODULE SwarmMC -------------------------------
EXTENDS Swarm
CONSTANT NMax
VARIABLE s
Designs(n) == {[f |-> f, ok |-> o, inb |-> TRUE, near |-> w] : f \in 0..3, o \in BOOLEAN, w \in {<<>>} \cup (IF n = 0 THEN {} ELSE {<<n>>})}
Init == s \in {Start(S, m, q) : S \in 1..2, m \in 0..2, q \in {0, 1}} /\ ~s.done
Next == ~s.done /\ s.n < NMax /\ \E d \in Designs(s.n) : s' = Eval(s, d)
Spec == Init /\ [][Next]_s
Inv == Guarantee(s)
=============================================================================
