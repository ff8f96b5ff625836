-------------------------------- MODULE Gas --------------------------------
(* C20. Gas through an engine: what every stage hands on of the heat, pressure, work and flow it is given.  *)
EXTENDS Decimal
N(m, e) == Norm(m, e)
One == N(1, 0)
Two == N(2, 0)
Max(a, b) == IF Less(a, b) THEN b ELSE a
Min(a, b) == IF Less(b, a) THEN b ELSE a
Size(a) == IF a.m < 0 THEN Neg(a) ELSE a
Within(a, b, d) == ~ Less(d, Size(Sub(a, b)))
\* equal to three parts in ten thousand
Near(a, b) == Within(a, b, Mul(N(3, -4), Size(b)))
\* ---- powers of any positive number: near one for the series
Ln10 == N(2302585, -6)
LnAny(a) == LET f == [m |-> a.m, e |-> -6] IN Add(Mul(N(4, 0), Ln(Sqrt(Sqrt(f)))), IF a.e = -6 THEN Zero ELSE Mul(N(a.e + 6, 0), Ln10))
PowR(a, x) == IF a = One \/ x.m = 0 THEN One ELSE Exp(Mul(x, LnAny(a)))
\* ---- one gas of ratio of heats g: from rest to Mach number m
K(g) == Div(Sub(g, One), Two)
Iso(g, m) == Add(One, Mul(K(g), Mul(m, m)))
Gx(g) == Div(g, Sub(g, One))
Px(g, m) == PowR(Iso(g, m), Gx(g))
\* flow through an area over what the area would pass at the speed of sound
Fx(g) == Div(Add(g, One), Mul(Two, Sub(g, One)))
Fm(g, m) == Mul(m, PowR(Div(Div(Add(g, One), Two), Iso(g, m)), Fx(g)))
\* ---- stages
Ram(g, t, p, m) == [T |-> Mul(t, Iso(g, m)), P |-> Mul(p, Px(g, m))]
Press(g, s, r, eta) == [T |-> Mul(s.T, PowR(r, Div(Sub(g, One), Mul(g, eta)))), P |-> Mul(s.P, r)]
Expand(g, s, r, eta) == [T |-> Mul(s.T, PowR(r, Mul(Div(Sub(g, One), g), eta))), P |-> Mul(s.P, r)]
\* heat of the fuel, less what the fuel itself is heated by
Fuel(cp, t3, t4, eta, h, n) == Div(Mul(n, Mul(cp, Sub(t4, t3))), Sub(Mul(eta, h), Mul(n, Mul(cp, t4))))
Turn(g, cp, s, w, f, mech, eta) ==
  LET t == Sub(s.T, Div(w, Mul(cp, Mul(mech, Add(One, f))))) IN [T |-> t, P |-> Mul(s.P, PowR(Div(t, s.T), Div(Gx(g), eta)))]
\* ---- shocks
Shock2(g, m) == Div(Iso(g, m), Sub(Mul(g, Mul(m, m)), K(g)))
ShockP(g, m) == LET q == Mul(m, m)  u == Add(g, One)  d == Sub(g, One) IN
  Mul(PowR(Div(Mul(u, q), Add(Mul(d, q), Two)), Gx(g)), PowR(Div(u, Sub(Mul(Two, Mul(g, q)), d)), Div(One, d)))
JumpP(g, mn2) == Add(One, Mul(Div(Mul(Two, g), Add(g, One)), Sub(mn2, One)))
JumpT(g, mn2) == Mul(JumpP(g, mn2), Div(Add(Mul(Sub(g, One), mn2), Two), Mul(Add(g, One), mn2)))
\* ---- heat in a duct of one area: stagnation temperature and pressure, both over those at the speed of sound
HeatT(g, m) == LET q == Mul(m, m)  d == Add(One, Mul(g, q)) IN Div(Mul(Mul(Two, Add(g, One)), Mul(q, Iso(g, m))), Mul(d, d))
HeatP(g, m) == Div(Px(g, m), Add(One, Mul(g, Mul(m, m))))
\* ---- thrust of a flow: what leaves faster, and what leaves at a higher pressure
Stream(u, u0, a, p, p0, flux) == Add(Sub(u, u0), Div(Mul(a, Sub(p, p0)), flux))
=============================================================================
