-------------------------------- MODULE Air --------------------------------
(* C16. The atmosphere is one column of gas at rest: at every point of every batch temperature is     *)
(* that of its layer, pressure carries the air above, density, speed of sound, viscosity and            *)
(* conductivity follow from both.                                                                    *)
(* An atmosphere is [kind, t0: K added to the temperatures of its layers, p0: its pressures in          *)
(* standard ones, g: its gravity in standard ones].                                                 *)
EXTENDS Decimal
N(m, e) == Norm(m, e)
R == N(28705287, -5)   \* of air
G0 == N(980665, -5)
Re == N(6371, 3)
Hb == <<N(-2, 3), Zero, N(11, 3), N(20, 3), N(32, 3), N(47, 3), N(51, 3), N(71, 3), N(84852, 0)>>
Tb == <<N(30115, -2), N(28815, -2), N(21665, -2), N(21665, -2), N(22865, -2), N(27065, -2), N(27065, -2), N(21465, -2), N(18695, -2)>>
Pb == <<N(127774, 0), N(101325, 0), N(226321, -1), N(547489, -2), N(868019, -3), N(110906, -3), N(669389, -4), N(395642, -5), N(3734, -4)>>
\* height of a column of constant gravity, kept within the model
Geo(z) == LET h == Div(z, Add(N(1, 0), Div(z, Re))) IN IF Less(h, Hb[1]) THEN Hb[1] ELSE IF Less(Hb[9], h) THEN Hb[9] ELSE h
Layer(h) == CHOOSE i \in 1..8 : ~Less(h, Hb[i]) /\ (i = 8 \/ Less(h, Hb[i + 1]))
T0(A, i) == IF A.kind = "const" THEN A.t0 ELSE Add(Tb[i], A.t0)
Rate(A, i) == IF A.kind = "const" THEN Zero ELSE Div(Sub(Tb[i + 1], Tb[i]), Sub(Hb[i + 1], Hb[i]))
\* temperature of the column at rest
TAt(A, h) == LET i == Layer(h) IN Add(T0(A, i), Mul(Rate(A, i), Sub(h, Hb[i])))
PIn(A, h, i) ==
  LET d == Sub(h, Hb[i])  b == Mul(Pb[i], A.p0)  k == Div(Mul(A.g, G0), R) IN
  IF d.m = 0 THEN b
  ELSE IF Rate(A, i).m = 0 THEN Mul(b, Exp(Neg(Div(Mul(k, d), T0(A, i)))))
  ELSE Mul(b, Exp(Neg(Mul(Div(k, Rate(A, i)), Ln(Div(TAt(A, h), T0(A, i)))))))
PAt(A, h) == PIn(A, h, Layer(h))
\* what the gas is
Poly(c, t) == LET F[i \in 0..Len(c)] == IF i = 0 THEN Zero ELSE LET f == F[i - 1] IN Add(Mul(f, t), c[i]) IN F[Len(c)]
Gamma(t) == Poly(<<N(1629, -13), N(-3588, -10), N(1418, -7), N(1386, -3)>>, t)
K(t) == Poly(<<N(14, -12), N(-457, -10), N(989, -7), N(399, -6)>>, t)
Cp == N(1006, 0)
\* squares, as roots are: (speed of sound)^2, (viscosity (T + S))^2
A2(t, v) == Mul(IF v THEN Gamma(t) ELSE N(14, -1), Mul(R, t))
Mu2(t) == Mul(N(2125764, -18), Pow(t, 3))
Suth(t) == Add(t, N(1104, -1))
\* what a body moving through it meets
Q(rho, v) == Mul(N(5, -1), Mul(rho, Mul(v, v)))
=============================================================================
