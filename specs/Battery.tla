------------------------------ MODULE Battery ------------------------------
(* C11. A battery flown through a mission of charging and discharging legs, one cell   *)
(* string seen from the pack: energy (J), state of charge, charge throughput (A s),     *)
(* day of its life, capacity lost and resistance gained.                                 *)
(* World w: [volt, emax, ci, cv, e0, day0, q0, aged, fade, par, nmc]: pack voltage under *)
(* discharge, rated energy, charging current and voltage, what the first leg is given;   *)
(* fade in ppm, aged 0 when not given; par strings in parallel; grow: resistance growth   *)
(* (ppm), 0 for a generic cell without losses; hc: heat capacity (J/K).                    *)
(* Leg: [dis, cur (A, negative when more is generated than drawn), T (s), inc (advance the day), temp (K, 0: not given), hat: an     *)
(* own start energy, which counts in the first leg only].  Control points sit at         *)
(* 0, 1/4, 3/4 and 1 of the duration.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
Exact(w) == ~w.nmc /\ w.grow = 0
Clamp(x, lo, hi) == Max(lo, Min(hi, x))
\* what one leg hands to the next
Fresh(w) == [e |-> w.e0, emis |-> w.e0, aged |-> IF w.aged = 0 THEN w.emax ELSE w.aged, q |-> w.q0, day |-> w.day0, t |-> 0, fade |-> w.fade]
AgedIn(w, g, s, first) == IF first \/ s.dis THEN g.aged ELSE (g.emis * (g.fade \div 100)) \div 10000
\* the generic cell scales its capacity by the fade factor as well
Cap(w, g, s, first) == IF w.nmc THEN AgedIn(w, g, s, first) ELSE (AgedIn(w, g, s, first) * (g.fade \div 100)) \div 10000
\* duration: given when discharging; long enough to fill the energy missing, and a quarter more, when charging
Power(w, s) == IF s.dis THEN -(s.cur * w.volt) ELSE w.ci * w.par * w.cv
Long(w, g, s, first) == IF s.dis THEN s.T ELSE ((g.aged - g.e) * 5) \div (4 * Power(w, s))
Amps(w, s) == IF s.dis THEN Abs(s.cur) ELSE w.ci * w.par
\* a leg that stores: a charge, or a flight that generates more than it draws (negative current)
Stores(s) == ~s.dis \/ s.cur < 0
\* quarter points (f = 0, 1, 3, 4) of a leg without losses
Time(w, g, s, first, f) == g.t + (Long(w, g, s, first) * f) \div 4
Energy(w, g, s, first, f) == LET e == g.e + (IF s.dis THEN (Power(w, s) * s.T * f) \div 4 ELSE ((g.aged - g.e) * 5 * f) \div 16) IN
                             IF ~Stores(s) THEN e ELSE IF s.dis THEN Min(e, Max(Cap(w, g, s, first), g.e)) ELSE Min(e, Cap(w, g, s, first))
Soc(w, g, s, first, f) == Clamp((1000 * (Energy(w, g, s, first, f) \div 10)) \div (Cap(w, g, s, first) \div 10), 0, 1000)
Through(w, g, s, first, f) == g.q + (Amps(w, s) * Long(w, g, s, first) * f) \div 4
After(w, g, s, first) == [g EXCEPT !.e = Energy(w, g, s, first, 4), !.aged = AgedIn(w, g, s, first), !.q = Through(w, g, s, first, 4),
                                   !.t = Time(w, g, s, first, 4)]
Legs(w, ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN Fresh(w) ELSE After(w, F[i - 1], ss[i], i = 1) IN F
\* --- pack sizing ------------------------------------------------------------------
FromMass(b) == LET m == b.mass IN      \* mass of the cells (module factor taken out)
   [cells |-> m \div b.cell, series |-> b.vmax \div b.cellv, parallel |-> (m \div b.cell) \div (b.vmax \div b.cellv), energy |-> m * b.spe,
    power |-> m * b.spp, cv |-> b.chv * (b.vmax \div b.cellv), ci |-> b.chi * ((m \div b.cell) \div (b.vmax \div b.cellv))]
FromNeeds(b) == LET k == Max(b.energy \div b.spe, b.power \div b.spp) IN [mass |-> k, energy |-> k * b.spe, power |-> k * b.spp]
FromCircuit(b) == [cells |-> b.s * b.p, cellmass |-> b.s * b.p * b.cell, energy |-> b.s * b.p * b.ah * b.v, vmax |-> b.s * b.vc,
                   cv |-> b.s * b.chv, ci |-> b.p * b.chi]
=============================================================================
