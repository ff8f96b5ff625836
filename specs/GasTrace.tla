------------------------------ MODULE GasTrace ------------------------------
EXTENDS Gas, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, skip
Is(x, w, n) == IF Near(Dec(x), w) THEN {} ELSE {n}
On(p, n) == IF p THEN {} ELSE {n}
St(x) == [T |-> Dec(x[1]), P |-> Dec(x[2])]
Same2(x, w, n) == Is(x[1], w.T, n \o "-temperature") \cup Is(x[2], w.P, n \o "-pressure")
\* leaving at m: static and stagnation, speed, enthalpy
Leaves(e) == LET g == Dec(e.g)  m == Dec(e.M)  T == Dec(e.T)  cp == Dec(e.Cp) IN
  Is(e.out[1], Mul(T, Iso(g, m)), "static-temperature") \cup Is(e.ht, Mul(cp, Dec(e.out[1])), "enthalpy") \cup Is(e.h, Mul(cp, T), "static-enthalpy") \cup
  (IF m.e < -8 \/ Within(Mul(Dec(e.u), Dec(e.u)), Mul(Mul(Two, Mul(cp, T)), Mul(K(g), Mul(m, m))), Mul(N(1, -3), Mul(Dec(e.u), Dec(e.u)))) THEN {} ELSE {"speed"})
\* the flow of an area is that of the stream it was, with no fuel
Area(e) == LET g == Dec(e.g) IN
  On(Within(Mul(Mul(Dec(e.A), Dec(e.P)), Mul(Dec(e.M), Sqrt(Dec(e.To)))), Mul(Mul(Dec(e.Po), Dec(e.Mo)), Sqrt(Dec(e.T))), Mul(N(1, -3), Mul(Mul(Dec(e.Po), Dec(e.Mo)), Sqrt(Dec(e.T))))), "area")
RamBad(e) == Same2(e.out, Ram(Dec(e.g), Dec(e.To), Dec(e.Po), Dec(e.Mo)), "stagnation") \cup On(e.told, "gas")
Inlet(e) ==
  LET g == Dec(e.g)  r == Mul(Dec(e.r), Dec(e.rec))  q == Press(g, St(e.in), r, Dec(e.eta)) IN
  Is(e.out[1], q.T, "stagnation-temperature") \cup Leaves(e) \cup
  (IF e.shock /\ Less(One, Dec(e.Mo)) THEN
     Is(e.out[2], Mul(Mul(Dec(e.r), Dec(e.in[2])), ShockP(g, Dec(e.Mo))), "shock-pressure") \cup On(Near(Mul(Dec(e.M), Dec(e.M)), Shock2(g, Dec(e.Mo))), "shock-mach")
   ELSE Is(e.out[2], Max(q.P, Dec(e.Po)), "stagnation-pressure") \cup Is(e.out[2], Mul(Dec(e.Po), Px(g, Dec(e.M))), "mach"))
PressBad(e) ==
  LET q == Press(Dec(e.g), St(e.in), Dec(e.r), Dec(e.eta))  cp == Dec(e.Cp) IN
  Same2(e.out, q, "stagnation") \cup Is(e.ht, Mul(cp, Dec(e.out[1])), "enthalpy") \cup Is(e.ht, Add(Mul(cp, Dec(e.in[1])), Dec(e.w)), "work")
Burn(e) ==
  LET cp == Dec(e.Cp)  t == Dec(e.out[1]) IN
  Is(e.out[1], Dec(e.t4), "stagnation-temperature") \cup Is(e.out[2], Mul(Dec(e.in[2]), Dec(e.r)), "stagnation-pressure") \cup Is(e.ht, Mul(cp, t), "enthalpy") \cup
  On(Within(Dec(e.f), Fuel(cp, Dec(e.in[1]), t, Dec(e.eta), Dec(e.heat), Dec(e.n)), N(1, -5)), "fuel")
\* in a duct: at the Mach number of its area, as hot as it may be without choking
Duct(e) ==
  LET g == Dec(e.g)  cp == Dec(e.Cp)  m == Dec(e.m3)  t == Dec(e.out[1])  most == Div(Dec(e.in[1]), HeatT(g, m)) IN
  Is(e.out[1], Min(Dec(e.t4), most), "stagnation-temperature") \cup Is(e.ht, Mul(cp, t), "enthalpy") \cup
  On(Within(Dec(e.f), Fuel(cp, Dec(e.in[1]), t, Dec(e.eta), Dec(e.heat), One), N(1, -5)), "fuel") \cup
  On(Within(Dec(e.out[2]), Mul(Dec(e.in[2]), Div(HeatP(g, Dec(e.M)), HeatP(g, m))), Mul(N(2, -3), Dec(e.in[2]))), "stagnation-pressure") \cup
  (IF Less(Dec(e.t4), Mul(N(98, -2), most)) THEN On(Within(Mul(HeatT(g, Dec(e.M)), Dec(e.in[1])), Mul(HeatT(g, m), t), Mul(N(2, -3), Dec(e.in[1]))), "mach") ELSE {})
Fm1(e) == On(Within(Fm(Dec(e.g), Dec(e.m0)), Mul(Dec(e.a), Fm(Dec(e.g), Dec(e.m1))), N(1, -3)) /\ (Less(Dec(e.m0), One) <=> Less(Dec(e.m1), One)), "area-mach")
TurnBad(e) ==
  LET cp == Dec(e.Cp)  w == Add(Add(Dec(e.wc), Dec(e.ws)), Mul(Dec(e.bypass), Dec(e.wf))) IN
  Same2(e.out, Turn(Dec(e.g), cp, St(e.in), w, Dec(e.f), Dec(e.mech), Dec(e.eta)), "stagnation") \cup Is(e.ht, Mul(cp, Dec(e.out[1])), "enthalpy")
Nozzle(e) ==
  LET g == Dec(e.g)  q == Expand(g, St(e.in), Mul(Dec(e.r), Dec(e.rec)), Dec(e.eta))  m == Dec(e.M)  P == Dec(e.P)  Po == Dec(e.Po)  pt == Dec(e.out[2]) IN
  Is(e.out[1], q.T, "stagnation-temperature") \cup Is(e.out[2], IF e.full THEN q.P ELSE Max(q.P, Po), "stagnation-pressure") \cup Leaves(e) \cup Area(e) \cup
  Is(e.out[2], Mul(P, Px(g, m)), "mach") \cup On(Near(Mul(Dec(e.rho), Mul(Dec(e.R), Dec(e.T))), P), "density") \cup
  \* at the pressure around, unless at the speed of sound already
  (IF e.full THEN Is(e.P, Po, "static-pressure") ELSE On((Near(P, Po) /\ ~ Less(One, m)) \/ (Less(Po, P) /\ m = One), "static-pressure"))
\* a nozzle with limits to its area: at the pressure around where it can, at the limit where it cannot
Limited(e) ==
  LET g == Dec(e.g)  q == Expand(g, St(e.in), Dec(e.r), Dec(e.eta))  m == Dec(e.M)  P == Dec(e.P)  Po == Dec(e.Po)  A == Dec(e.A)  T == Dec(e.T)
      mid == Div(Add(Dec(e.most), Dec(e.least)), Two)  after == Sqrt(Shock2(g, Dec(e.fast)))  behind == Div(Dec(e.out[2]), Mul(Mul(mid, PowR(Div(Add(g, One), Two), Fx(g))), Mul(after, Sqrt(Iso(g, after))))) IN
  Same2(e.out, q, "stagnation") \cup Is(e.out[2], Mul(P, Px(g, m)), "mach") \cup On(Near(Mul(A, Fm(g, m)), One), "area") \cup Is(e.out[1], Mul(T, Iso(g, m)), "static-temperature") \cup
  On(Near(Mul(Dec(e.u), Dec(e.u)), Mul(Mul(m, m), Mul(g, Mul(Dec(e.R), T)))), "speed") \cup On(Near(Mul(Dec(e.rho), Mul(Dec(e.R), T)), P), "density") \cup
  Is(e.ht, Mul(Dec(e.Cp), Dec(e.out[1])), "enthalpy") \cup Is(e.h, Mul(Dec(e.Cp), T), "static-enthalpy") \cup
  On(Near(Mul(mid, Fm(g, Dec(e.fast))), One), "harness") \cup
  \* a shock stands in the nozzle when the pressure around is above that behind a shock at its mean area
  (IF Less(Mul(N(101, -2), behind), Po) THEN On(Near(P, Po), "shocked") ELSE {}) \cup
  (IF Near(P, Po) THEN (IF Less(Po, Mul(N(99, -2), behind)) THEN On(~ Less(A, Mul(N(998, -3), Dec(e.least))) /\ ~ Less(Mul(N(1002, -3), Dec(e.most)), A), "limit") ELSE {})
   ELSE IF Less(P, Po) THEN On(Within(A, Dec(e.least), Mul(N(2, -3), A)), "limit") ELSE On(Within(A, Dec(e.most), Mul(N(2, -3), A)), "limit"))
Oblique(e) ==
  LET g == Dec(e.g)  mn2 == Mul(Mul(Dec(e.m0), Dec(e.sin)), Mul(Dec(e.m0), Dec(e.sin))) IN
  Is(e.pr, JumpP(g, mn2), "shock-pressure") \cup Is(e.tr, JumpT(g, mn2), "shock-temperature") \cup On(Near(Mul(Dec(e.tr), Iso(g, Dec(e.m1))), Iso(g, Dec(e.m0))), "shock-heat") \cup
  Is(e.ptr, Mul(Dec(e.pr), Div(Px(g, Dec(e.m1)), Px(g, Dec(e.m0)))), "shock-stagnation") \cup
  \* the turn of the flow: tan(theta) (M^2 (g + cos 2b) + 2) = 2 cot(b) (M^2 sin^2 b - 1)
  On(Within(Mul(Mul(Dec(e.tan), Add(Mul(Mul(Dec(e.m0), Dec(e.m0)), Add(g, Sub(One, Mul(Two, Mul(Dec(e.sin), Dec(e.sin)))))), Two)), Dec(e.sin)),
            Mul(Mul(Two, Dec(e.cos)), Sub(mn2, One)), N(2, -3)), "shock-turn")
Train(e) ==
  LET P[i \in 0..Len(e.each)] == IF i = 0 THEN <<One, One>> ELSE LET p == P[i - 1] IN <<Mul(p[1], Dec(e.each[i][1])), Mul(p[2], Dec(e.each[i][2]))>> IN
  Is(e.out[1], P[Len(e.each)][1], "train-temperature") \cup Is(e.out[2], P[Len(e.each)][2], "train-pressure")
\* thrust in the units of a flow through the core; the fuel that burns in it
Flow(e) == Mul(Mul(Dec(e.mdhc), Sqrt(Div(Dec(e.Tref), Dec(e.at[1])))), Div(Dec(e.at[2]), Dec(e.Pref)))
ThrustBad(e) ==
  LET g == Dec(e.g)  core == Flow(e)  flux == Div(Mul(g, Mul(Dec(e.Po), Dec(e.Mo))), Dec(e.a))  u0 == Dec(e.u0)
      S(x) == Stream(Dec(x.u), u0, Dec(x.A), Dec(x.P), Dec(e.Po), flux)
      k == Mul(Dec(e.count), Mul(Dec(e.thr), core))
      each == Add(IF e.hascore THEN S(e.core) ELSE Zero, IF e.hasfan THEN Mul(Dec(e.bypass), S(e.fan)) ELSE Zero)
      F == Mul(k, each)
      big == Mul(k, Add(u0, Add(IF e.hascore THEN Dec(e.core.u) ELSE Zero, IF e.hasfan THEN Mul(Dec(e.bypass), Dec(e.fan.u)) ELSE Zero)))
      fuel == Mul(k, Mul(Dec(e.f), Sub(One, Dec(e.adj))))
  IN Is(e.flow, core, "core-flow") \cup On(Within(Dec(e.F), F, Mul(N(1, -3), big)), "thrust") \cup On(e.F[1] <= 0 \/ Near(Dec(e.fuel), fuel), "fuel-flow") \cup Is(e.power, Mul(Dec(e.F), u0), "power")
Stream2(e) ==
  LET core == Flow(e)  k == Mul(Dec(e.count), Mul(Dec(e.thr), core))  u0 == Dec(e.u0)  rt == Div(Mul(Dec(e.R), Dec(e.To)), u0)
      out == Mul(Add(One, Dec(e.f)), Add(Dec(e.core.u), Div(Mul(Dec(e.R), Dec(e.core.T)), Dec(e.core.u))))
      each == Sub(Sub(out, Add(u0, rt)), Mul(rt, Sub(Dec(e.core.A), One)))
  IN Is(e.flow, core, "core-flow") \cup On(Within(Dec(e.F), Mul(k, each), Mul(N(1, -3), Mul(k, out))), "thrust") \cup
     On(e.F[1] <= 0 \/ Near(Dec(e.fuel), Mul(k, Dec(e.f))), "fuel-flow") \cup Is(e.power, Mul(Dec(e.F), u0), "power")
Sized(e) == On(Within(Dec(e.F), Dec(e.design), Mul(N(2, -3), Dec(e.design))), "sized-thrust") \cup On(Within(Dec(e.mass), Dec(e.flow), Mul(N(2, -3), Dec(e.flow))), "sized-flow")
Shaft(e) == Is(e.w, Div(Dec(e.power), Flow(e)), "work")
\* supersonic all through: shocks that slow, fuel that heats at one pressure, a nozzle to a pressure given
Energy(cp, T, u) == Add(Mul(cp, T), Div(Mul(u, u), Two))
Scin(e) ==
  LET g == Dec(e.g)  cp == Dec(e.Cp)  r == Dec(e.train[1])  T == Mul(r, Dec(e.To))  eta == Dec(e.eta) IN
  Is(e.T, T, "static-temperature") \cup Is(e.h, Mul(cp, T), "static-enthalpy") \cup Same2(e.out, [T |-> Dec(e.in[1]), P |-> Mul(Dec(e.train[2]), Dec(e.in[2]))], "stagnation") \cup
  Is(e.ht, Mul(cp, Dec(e.out[1])), "enthalpy") \cup On(Within(Energy(cp, T, Dec(e.u)), Energy(cp, Dec(e.To), Dec(e.u0)), Mul(N(1, -3), Energy(cp, T, Dec(e.u)))), "speed") \cup
  Is(e.P, Mul(Dec(e.Po), PowR(Div(r, Add(Mul(r, Sub(One, eta)), eta)), Div(cp, Dec(e.R)))), "static-pressure") \cup
  On(Within(Mul(r, Iso(g, Dec(e.M))), Iso(g, Dec(e.Mo)), Mul(N(1, -3), Iso(g, Dec(e.Mo)))), "mach")
Scburn(e) ==
  LET cp == Dec(e.cpb)  f == Dec(e.f)  w == Add(One, f)  u3 == Dec(e.u3)  u == Dec(e.u)  m2 == Mul(Dec(e.M), Dec(e.M))
      given == Add(Add(Mul(cp, Dec(e.T3)), Mul(f, Add(Mul(Dec(e.eta), Dec(e.heat)), Add(Dec(e.hf), Mul(cp, Dec(e.To)))))), Div(Mul(Add(One, Mul(f, Mul(Dec(e.vf), Dec(e.vf)))), Mul(u3, u3)), Two)) IN
  Is(e.f, Mul(Dec(e.phi), Dec(e.fst)), "fuel") \cup Is(e.P, Dec(e.P3), "static-pressure") \cup Is(e.u, Mul(u3, Div(Sub(Add(One, Mul(f, Dec(e.vfx))), Div(Dec(e.drag), Two)), w)), "speed") \cup
  On(Within(Mul(w, Energy(cp, Dec(e.T), u)), given, Mul(N(1, -3), given)), "heat") \cup On(Near(Mul(m2, Mul(Dec(e.gb), Mul(Dec(e.R), Dec(e.T)))), Mul(u, u)), "mach") \cup
  On(Near(cp, Mul(Dec(e.gb), Div(Dec(e.R), Sub(Dec(e.gb), One)))), "gas") \cup Is(e.out[1], Mul(Dec(e.T), Iso(Dec(e.gb), Dec(e.M))), "stagnation-temperature") \cup Is(e.ht, Mul(cp, Dec(e.out[1])), "enthalpy")
Scout(e) ==
  LET cp == Dec(e.cpb)  T3 == Dec(e.T3)  Po == Dec(e.Po)  T == Dec(e.T)  u == Dec(e.u)  w == Add(One, Dec(e.f)) IN
  Is(e.P, Mul(Po, Dec(e.r)), "static-pressure") \cup Is(e.T, Mul(T3, Sub(One, Mul(Dec(e.eta), Sub(One, PowR(Div(Dec(e.P), Dec(e.P3)), Div(Dec(e.R), cp)))))), "static-temperature") \cup
  On(Within(Energy(cp, T, u), Energy(cp, T3, Dec(e.u3)), Mul(N(1, -3), Energy(cp, T3, Dec(e.u3)))), "speed") \cup On(Near(Mul(Mul(Dec(e.M), Dec(e.M)), Mul(Dec(e.gb), Mul(Dec(e.R), T))), Mul(u, u)), "mach") \cup
  On(Near(Mul(Mul(Dec(e.A), Dec(e.P)), Mul(u, Dec(e.To))), Mul(Mul(w, Po), Mul(T, Dec(e.u0)))), "area")
Told(e, n) == \A i \in 1..n : e.told[i] = e.true[i]
Report(e) == On(Told(e, 5), "report-" \o e.name)
\* what one stage takes is what the other gave
Links(e) == UNION {On(e.pairs[i][2] = e.pairs[i][3], "link-" \o e.pairs[i][1]) : i \in 1..Len(e.pairs)}
Bad(e) ==
  CASE e.op = "ram" -> RamBad(e) [] e.op = "inlet" -> Inlet(e) [] e.op = "press" -> PressBad(e) [] e.op = "burn" -> Burn(e) [] e.op = "duct" -> Duct(e) [] e.op = "fm" -> Fm1(e)
    [] e.op = "turn" -> TurnBad(e) [] e.op = "nozzle" -> Nozzle(e) [] e.op = "limited" -> Limited(e) [] e.op = "oblique" -> Oblique(e) [] e.op = "train" -> Train(e)
    [] e.op = "thrust" -> ThrustBad(e) [] e.op = "sthrust" -> Stream2(e) [] e.op = "sized" -> Sized(e) [] e.op = "shaft" -> Shaft(e) [] e.op = "links" -> Links(e) [] e.op = "scin" -> Scin(e) [] e.op = "scburn" -> Scburn(e) [] e.op = "scout" -> Scout(e) [] e.op = "report" -> Report(e) [] OTHER -> {}
Init == l = 1 /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN skip' = FALSE
     ELSE IF skip THEN UNCHANGED skip
     ELSE LET bad == Bad(e) IN
          IF bad = {} THEN skip' = FALSE
          ELSE skip' = TRUE /\ PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> <<>>]))
Spec == Init /\ [][Next]_<<l, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
