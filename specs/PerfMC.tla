------------------------------- MODULE PerfMC -------------------------------
(* The search for the distance at which the fuel of a corner is burned, for a flight burning Fix + Rate * distance. *)
EXTENDS Perf
CONSTANTS D
VARIABLES w, i, dist, n, out
vars == <<w, i, dist, n, out>>
Masses == {[oew |-> N(50, 0), mzfw |-> N(z, 0), mtow |-> N(t, 0), pld |-> N(p, 0), fuel |-> N(f, 0)] : z \in {60, 65, 70}, t \in {80, 90, 100}, p \in {0, 12, 30}, f \in {0, 15, 35, 60}}
Fix == N(5, 0)
Rate == N(25, -2)
Burn(d) == Add(Fix, Mul(Rate, d))
Init == w \in Masses /\ i = 1 /\ dist = N(8, 0) /\ n = 0 /\ out = <<>>
Missing == Sub(Corner(w, i).fuel, Burn(dist))
Turn == i <= 3 /\ n < D /\ ~ Within(Missing, Zero, N(1, -2)) /\ dist' = Add(dist, Div(Missing, Rate)) /\ n' = n + 1 /\ UNCHANGED <<w, i, out>>
Done == i <= 3 /\ Within(Missing, Zero, N(1, -2)) /\ out' = Append(out, [c |-> Corner(w, i), range |-> dist]) /\ i' = i + 1 /\ n' = 0 /\ UNCHANGED <<w, dist>>
Next == Turn \/ Done
Spec == Init /\ [][Next]_vars
Closes == \A j \in 1..3 : LET c == Corner(w, j) IN Close(c.tow, Add(w.oew, Add(c.pld, c.fuel))) /\ AtMost(c.tow, w.mtow) /\ AtMost(c.pld, MaxPld(w)) /\ AtMost(c.fuel, MaxFuel(w)) /\ c.pld.m >= 0 /\ c.fuel.m >= 0
Trades == \A j \in 1..2 : AtMost(Corner(w, j + 1).pld, Corner(w, j).pld) /\ AtMost(Corner(w, j).fuel, Corner(w, j + 1).fuel)
Full == \E j \in {1} : LET c == Corner(w, j) IN Close(c.tow, w.mtow) \/ Close(c.fuel, MaxFuel(w))
Settles == n <= 1
Further == \A j \in 1..(Len(out) - 1) : AtMost(out[j].range, Add(out[j + 1].range, N(1, -1)))
\* laws of the estimates
Wts == {[W |-> N(a, 2), rho |-> N(r, -1), S |-> N(15, 0)] : a \in {50, 90}, r \in {7, 12}}
Peak == \A q \in Wts : \A three \in {TRUE, FALSE} : LET v == Sqrt(Best2(q, N(2, -2), N(5, -2), three))
          IN \A s \in {N(9, -1), N(11, -1)} : ~ Less(Ratio(q, N(2, -2), N(5, -2), v, three), Ratio(q, N(2, -2), N(5, -2), Mul(s, v), three))
Longer == \A k \in 1..5 : \A a \in {1000, 3000} : Less(TakeoffLength(Takeoff(k), N(12, -1), N(a, 0), N(2, 5), N(6, 4)), TakeoffLength(Takeoff(k), N(12, -1), N(a, 0), N(2, 5), N(7, 4)))
Limits == \A cat \in {"normal", "utility", "acrobatic", "commuter"} : \A t \in {2, 5, 9} : ~ Less(Limit(cat, N(3, 3), N(t, 0)), N(25, -1)) /\ Below(cat, 23, Limit(cat, N(3, 3), N(t, 0)), N(-1, 0)).m < 0
=============================================================================
