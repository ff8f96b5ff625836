---------------------------- MODULE TrustRegionMC ----------------------------
EXTENDS TrustRegion
CONSTANT Its
VARIABLES p, st, prev
Q(a, b, c) == [a |-> <<a>>, b |-> <<b>>, c |-> c]
Problems == {[vars |-> <<[lo |-> -6, hi |-> 6, sc |-> 1, ini |-> i]>>, obj |-> <<Q(1, b, 0), Q(2, -1, d)>>, osc |-> 1,
              con |-> k, ct |-> 25, et |-> 75, cf |-> 2, ef |-> 2, min |-> 16, size |-> 32, tol |-> 1, maxit |-> Its]
             : i \in {-4, 0, 3}, b \in {-2, 3}, d \in {0, 5},
               k \in {<<>>, <<[q |-> <<Q(0, 1, 0), Q(0, 1, 1)>>, s |-> ">", e |-> 2, sc |-> 1, un |-> 1]>>,
                      <<[q |-> <<Q(1, 0, 0), Q(1, 1, 0)>>, s |-> "=", e |-> 4, sc |-> 1, un |-> 1]>>}}
Init == p \in Problems /\ st = Start(p) /\ prev = <<>>
Next == ~st.done /\ UNCHANGED p /\ prev' = <<st>> /\ \E x \in -6..6, ok \in BOOLEAN : Inside(p, st, <<x>>) /\ st' \in Judge(p, st, <<x>>, ok)
Spec == Init /\ [][Next]_<<p, st, prev>>
View == <<p, st, prev>>
InBounds == \A i \in 1..Len(st.x) : p.vars[i].lo <= st.x[i] /\ st.x[i] <= p.vars[i].hi
NoStepBack == prev # <<>> => st.x = prev[1].x \/ F(p, 2, st.x) < F(p, 2, prev[1].x) \/ Viol(p, G(p, 2, st.x)) < Viol(p, G(p, 2, prev[1].x))
Consistent == Fc(p, st.x, st.x) = F(p, 2, st.x) /\ Gc(p, st.x, st.x) = G(p, 2, st.x)
Slope == \A i \in 1..Len(st.x) : LET u == Up(st.x, i) IN Fc(p, st.x, u) - Fc(p, st.x, st.x) = F(p, 2, u) - F(p, 2, st.x)
Ends == st.it = p.maxit => st.done
=============================================================================
