-------------------------------- MODULE Perf --------------------------------
(* C19. Estimates that sum up flights, speeds, fields, loads and costs: what each must agree with.       *)
EXTENDS Decimal
N(m, e) == Norm(m, e)
Min(a, b) == IF Less(b, a) THEN b ELSE a
Max(a, b) == IF Less(a, b) THEN b ELSE a
Sum(q) == LET S[i \in 0..Len(q)] == IF i = 0 THEN Zero ELSE LET s == S[i - 1] IN Add(s, q[i]) IN S[Len(q)]
\* within d of each other
Within(a, b, d) == ~ Less(d, Sub(a, b)) /\ ~ Less(d, Sub(b, a))
\* a is b or less, to five digits
AtMost(a, b) == ~ Less(b, a) \/ Close(a, b)
\* ---- payload and range: masses [oew, mzfw, mtow, pld, fuel], what is told as zero is not told
MaxPld(w) == IF w.pld.m = 0 THEN Sub(w.mzfw, w.oew) ELSE Min(w.pld, Sub(w.mzfw, w.oew))
MaxFuel(w) == IF w.fuel.m = 0 THEN Sub(w.mtow, w.oew) ELSE Min(w.fuel, Sub(w.mtow, w.oew))
\* all the payload; all the fuel; no payload
Corner(w, i) ==
  LET f1 == Min(Sub(Sub(w.mtow, w.oew), MaxPld(w)), MaxFuel(w))
      p2 == Min(MaxPld(w), Sub(Sub(w.mtow, w.oew), MaxFuel(w)))
      p == CASE i = 1 -> MaxPld(w) [] i = 2 -> p2 [] OTHER -> Zero
      f == IF i = 1 THEN f1 ELSE MaxFuel(w)
  IN [pld |-> p, fuel |-> f, tow |-> Add(w.oew, Add(p, f))]
\* ---- speeds and fields
Stall2(m, g, rho, S, CL) == Div(Mul(N(2, 0), Mul(m, g)), Mul(rho, Mul(S, CL)))
Poly(c, x) == LET S[i \in 0..Len(c)] == IF i = 0 THEN Zero ELSE LET s == S[i - 1] IN Add(s, Mul(c[i], Pow(x, i - 1))) IN S[Len(c)]
Ft == N(3048, -4)
Takeoff(n) == CASE n = 3 -> <<N(6679, -1), N(2343, -3), N(93, -6)>> [] n >= 4 -> <<N(4867, -1), N(2282, -3), N(705, -7)>>
                [] OTHER -> <<N(8574, -1), N(2476, -3), N(14, -5)>>
TakeoffLength(c, k, v2, thrust, m) == Mul(Ft, Poly(c, Div(Mul(Mul(k, k), v2), Div(thrust, m))))
Landing(g) == <<N(250, 0), Zero, Div(N(2485, -3), g)>>
LandingLength(c, k, v2) == Poly(c, Mul(k, Sqrt(v2)))
\* a drag polar cd0 + k cl^2: where lift over drag, and lift^1.5 over drag, are greatest
Best2(w, cd0, k, three) == LET cl2 == Div(IF three THEN Mul(N(3, 0), cd0) ELSE cd0, k) IN Div(Mul(N(2, 0), w.W), Mul(Mul(w.rho, w.S), Sqrt(cl2)))
Into(v, lo, hi) == Max(lo, Min(v, hi))
Cl(w, v) == Div(Mul(N(2, 0), w.W), Mul(Mul(w.rho, w.S), Mul(v, v)))
Ratio(w, cd0, k, v, three) == LET c == Cl(w, v) IN Div(IF three THEN Mul(c, Sqrt(c)) ELSE c, Add(cd0, Mul(k, Mul(c, c))))
\* ---- loads: limits of a category, weight in pounds
Pound(w) == Add(N(21, -1), Div(N(24000, 0), Add(w, N(10000, 0))))
Limit(cat, w, told) ==
  CASE cat = "utility" -> Max(told, N(44, -1))
    [] cat = "acrobatic" -> Max(told, N(6, 0))
    [] OTHER -> LET p == Pound(w) IN IF Less(p, N(25, -1)) THEN N(25, -1) ELSE IF Less(p, told) THEN told ELSE IF Less(N(38, -1), p) THEN N(38, -1) ELSE p
Below(cat, part, pos, told) ==
  LET b == IF part = 25 THEN (IF Less(N(-1, 0), told) THEN N(-1, 0) ELSE told) ELSE IF cat = "acrobatic" THEN Mul(N(-5, -1), pos) ELSE Mul(N(-4, -1), pos)
  IN IF Less(Neg(b), IF told.m < 0 THEN Neg(told) ELSE told) THEN told ELSE b
\* gusts by altitude in feet: cruise, dive, rough air
Gust(part, cat, h) ==
  IF part = 25 THEN LET u == IF Less(h, N(15000, 0)) THEN Sub(N(56, 0), Mul(N(8, -4), h)) ELSE Sub(N(517133, -4), Mul(N(5142, -7), h)) IN <<u, Mul(N(5, -1), u), u>>
  ELSE LET low == Less(h, N(20000, 0))
           c == IF low THEN N(50, 0) ELSE Sub(N(6667, -2), Mul(N(8333, -7), h))
           d == IF low THEN N(25, 0) ELSE Sub(N(33334, -3), Mul(N(4167, -7), h))
       IN <<c, d, IF cat # "commuter" THEN c ELSE IF low THEN N(66, 0) ELSE Sub(N(84667, -3), Mul(N(933, -6), h))>>
Kg(mu) == Div(Mul(N(88, -2), mu), Add(N(53, -1), mu))
One == N(1, 0)
\* design speeds in knots: the least cruise speed and the least dive speed over it, by wing loading
Lean(a, b, ws) == IF Less(ws, N(20, 0)) THEN a ELSE Sub(a, Mul(Div(Sub(a, b), N(80, 0)), Sub(ws, N(20, 0))))
LeastCruise23(cat, ws) == Mul(Lean(IF cat = "acrobatic" THEN N(36, 0) ELSE N(33, 0), N(286, -1), ws), Sqrt(ws))
DiveRatio(cat, ws) == Lean(CASE cat = "acrobatic" -> N(155, -2) [] cat = "utility" -> N(15, -1) [] OTHER -> N(14, -1), N(135, -2), ws)
\* far enough above the speed for the greatest gust: Vc = Vb + 1.32 U, Vb = Vs sqrt(1 + Kg U Vc a / 498 ws)
LeastCruise25(vs, kg, cla, u, ws) ==
  LET b == Mul(u, Add(N(264, -2), Div(Mul(Mul(kg, cla), Mul(vs, vs)), Mul(N(498, 0), ws))))
      c == Sub(Mul(N(17424, -4), Mul(u, u)), Mul(vs, vs))
  IN Div(Add(b, Sqrt(Sub(Mul(b, b), Mul(N(4, 0), c)))), N(2, 0))
Cruise(v0, va, least) == Max(IF Less(v0, va) THEN Mul(N(115, -2), va) ELSE v0, least)
Dive(part, cat, vc, least, ws) == IF part = 25 THEN Mul(N(125, -2), vc) ELSE Max(Mul(DiveRatio(cat, ws), least), Mul(N(115, -2), vc))
GustLoad(kg, cla, v, u, ws) == Add(One, Div(Mul(Mul(kg, cla), Mul(v, u)), Mul(N(498, 0), ws)))
=============================================================================
