------------------------------ MODULE Masses ------------------------------
(* C17. The weight statement of an aircraft adds up, group by group, to its take-off mass; every part     *)
(* carries what the statement says of it; a part weighs the same whatever else is there and whoever      *)
(* was weighed before; fuel moves the centre of gravity only within the range stated for it.            *)
EXTENDS Decimal
N(m, e) == Norm(m, e)
I(n) == Norm(n, 0)
Lb == N(45359237, -8)      Ft == N(3048, -4)      Ft2 == Mul(Ft, Ft)      Nmi == I(1852)
Pounds(x) == Mul(x, Lb)
AbsD(a) == [a EXCEPT !.m = Abs(@)]
\* equal within a few millionths of a scale (differences of large masses)
Near(a, b, scale) == LET d == AbsD(Sub(a, b)) IN d.m = 0 \/ Less(d, Mul(AbsD(scale), N(4, -6)))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(s[1], SumSeq(Tail(s)))
\* ---- what the simple estimates are
\* passengers 195 lb with 30 lb of baggage; in the FLOPS method 165 lb with baggage by range
Bag(method, rng) == IF method # "FLOPS" THEN 30 ELSE IF rng <= 900 THEN 35 ELSE IF rng <= 2900 THEN 40 ELSE 44
Payload(method, p) ==
  LET pax == Pounds(I(p.pax * (IF method = "FLOPS" THEN 165 ELSE 195)))
      bag == Pounds(I(p.pax * Bag(method, p.rng))) IN
  [passengers |-> pax, baggage |-> bag, cargo |-> I(p.cargo), total |-> Add(pax, Add(bag, I(p.cargo)))]
Pilots(p) == IF p.pax >= 150 THEN 3 ELSE 2
Cabin(p) == IF p.pax < 51 THEN 1 ELSE 1 + p.pax \div 40
Crew(method, p) ==
  [flight_crew |-> Pounds(I(Pilots(p) * (IF method = "FLOPS" THEN 225 ELSE 240))),
   flight_attendants |-> Pounds(I(IF method = "FLOPS" THEN Cabin(p) * 155 + (IF p.pax >= 150 THEN 1 + p.pax \div 250 ELSE 0) * 200 ELSE Cabin(p) * 210))]
Items(p) == Pounds(I(CASE p.acc = "cargo" -> 56 [] p.acc \in {"short-range", "commuter"} -> 17 * p.pax [] p.acc = "sst" -> 40 * p.pax [] OTHER -> 28 * p.pax))
\* systems of the Stanford method; areas in 1/100 m2
Control(p, tails) == LET t == SumSeq([i \in 1..Len(tails) |-> N(tails[i], -2)])
                         area == IF t.m = 0 THEN N(p.swing, -4) ELSE t IN
                     Pounds(Div(Mul(area, N(CASE p.ctl = "fully powered" -> 35 [] p.ctl = "partially powered" -> 25 [] OTHER -> 17, -1)), Ft2))
Apu(p) == LET a == IF p.pax >= 6 THEN Pounds(I(7 * p.pax)) ELSE Zero IN IF Less(a, I(70)) THEN I(70) ELSE a
Far(p) == p.acc \in {"long-range", "sst"}
Systems(p, tails) ==
  [control_systems |-> Control(p, tails), apu |-> Apu(p),
   hydraulics |-> Pounds(Mul(N(65, -2), Div(N(p.sref, -2), Ft2))),
   electrical |-> Pounds(I(IF p.acc = "cargo" THEN 1950 ELSE 13 * p.pax)),
   furnish |-> Pounds(Add(Mul(I(p.pax), N(43700 - 37 * (IF p.pax < 300 THEN p.pax ELSE 300) + 46000, -3)), I(IF Far(p) THEN 23 * p.pax ELSE 0))),
   air_conditioner |-> Pounds(I(15 * p.pax)),
   instruments |-> Pounds(I(IF Far(p) THEN 1200 ELSE CASE p.acc = "business" -> 100 [] p.acc = "commuter" -> 300 [] OTHER -> 800)),
   avionics |-> Pounds(I(IF Far(p) THEN 1500 ELSE CASE p.acc = "business" -> 300 [] p.acc = "commuter" -> 500 [] OTHER -> 900))]
Gear(p) == [main_landing_gear |-> N(p.mtow * 36, -3), nose_landing_gear |-> N(p.mtow * 4, -3)]
\* ---- the statement: fields of a group other than its total add up to it
Parts(g) == DOMAIN g \ {"total"}
RECURSIVE SumOver(_, _)
SumOver(g, ks) == IF ks = {} THEN Zero ELSE LET k == CHOOSE k \in ks : TRUE IN Add(g[k], SumOver(g, ks \ {k}))
Adds(g) == LET s == SumOver(g, Parts(g)) IN Near(g.total, s, s)
\* ---- fuel: filled from the front, the centre is as far forward as it can be
\* tanks: sequence of [c: capacity, x: position]; moment of m of fuel put in in that order
RECURSIVE Moment(_, _)
Moment(ts, m) == IF ts = <<>> \/ m = 0 THEN 0 ELSE LET q == IF m < ts[1].c THEN m ELSE ts[1].c IN q * ts[1].x + Moment(Tail(ts), m - q)
RECURSIVE Ahead(_)
Ahead(S) == IF S = {} THEN <<>> ELSE LET t == CHOOSE t \in S : \A u \in S : t.x <= u.x IN <<t>> \o Ahead(S \ {t})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
