------------------------------- MODULE GasMC -------------------------------
(* An engine, stage after stage: compressed, burned, turned, let out.                               *)
EXTENDS Gas
CONSTANTS D
VARIABLES g, at, s, w, f, mach
vars == <<g, at, s, w, f, mach>>
Cp == N(1004, 0)
Heat == N(43, 6)
Gammas == {N(14, -1), N(133, -2)}
Init == g \in Gammas /\ mach \in {N(3, -1), N(8, -1), N(2, 0)} /\ at = <<"ram">> /\ s = Ram(g, N(250, 0), N(5, 4), mach) /\ w = Zero /\ f = Zero
Up(r, eta) == /\ at[Len(at)] \in {"ram", "press"} /\ LET q == Press(g, s, r, eta) IN s' = q /\ w' = Add(w, Mul(Cp, Sub(q.T, s.T)))
              /\ at' = Append(at, "press") /\ UNCHANGED <<g, f, mach>>
Burn(t, eta) == /\ at[Len(at)] = "press" /\ Less(s.T, t) /\ f' = Fuel(Cp, s.T, t, eta, Heat, One) /\ s' = [T |-> t, P |-> Mul(s.P, N(95, -2))]
                /\ at' = Append(at, "burn") /\ UNCHANGED <<g, w, mach>>
Turbine(eta) == /\ at[Len(at)] = "burn" /\ s' = Turn(g, Cp, s, w, f, One, eta) /\ w' = Zero /\ at' = Append(at, "turn") /\ UNCHANGED <<g, f, mach>>
Next == Len(at) < D /\ (\/ \E r \in {N(2, 0), N(4, 0), N(9, 0)} : \E eta \in {One, N(9, -1)} : Up(r, eta)
                        \/ \E t \in {N(1300, 0), N(1700, 0)} : \E eta \in {One, N(98, -2)} : Burn(t, eta)
                        \/ \E eta \in {One, N(9, -1)} : Turbine(eta))
Spec == Init /\ [][Next]_vars
\* the heat of the gas is what it came with, the work put in, and the heat of the fuel
Rams == Ram(g, N(250, 0), N(5, 4), mach)
Held == "burn" \notin {at[i] : i \in 1..Len(at)} => Near(Mul(Cp, s.T), Add(Mul(Cp, Rams.T), w))
\* when burned, (1 + f) of gas leaves a turbine that bore the work with the heat of one at the ram and the fuel's
Left == at[Len(at)] = "turn" => Less(Rams.T, s.T) /\ s.P.m > 0
Waste == at[Len(at)] = "turn" => Less(f, N(6, -2)) /\ f.m > 0
\* two stages are one
Two1 == Len(at) > 2 \/ \A a, b \in {N(2, 0), N(3, 0)} : LET q == Press(g, Press(g, s, a, N(9, -1)), b, N(9, -1))  r == Press(g, s, Mul(a, b), N(9, -1)) IN Near(q.T, r.T) /\ Near(q.P, r.P)
\* a turbine undoes an ideal compressor
Undoes == Len(at) > 2 \/ (LET q == Press(g, s, N(3, 0), One)  r == Turn(g, Cp, q, Mul(Cp, Sub(q.T, s.T)), Zero, One, One) IN Near(r.T, s.T) /\ Near(r.P, s.P))
\* shocks lose pressure and slow to below sound; what lies straight across is the jump
Shocks == Len(at) > 1 \/ \A m \in {N(12, -1), N(2, 0), N(4, 0)} : LET m2 == Sqrt(Shock2(g, m)) IN
  /\ Less(m2, One) /\ Less(ShockP(g, m), One)
  /\ Near(Mul(JumpT(g, Mul(m, m)), Iso(g, m2)), Iso(g, m)) /\ Near(ShockP(g, m), Mul(JumpP(g, Mul(m, m)), Div(Px(g, m2), Px(g, m))))
\* an area passes the most at the speed of sound; so does heat raise the temperature the most
Chokes == Len(at) > 1 \/ \A m \in {N(2, -1), N(8, -1), N(13, -1), N(3, 0)} : Less(Fm(g, m), One) /\ Less(HeatT(g, m), One)
AtOne == Len(at) > 1 \/ (Near(Fm(g, One), One) /\ Near(HeatT(g, One), One))
=============================================================================
