------------------------------ MODULE PerfTrace ------------------------------
EXTENDS Perf, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, skip
Is(x, w, n) == IF Close(Dec(x), w) THEN {} ELSE {n}
Near(a, b) == Within(a, b, N(1, -4))
Decs(q) == [i \in 1..Len(q) |-> Dec(q[i])]
W(e) == [oew |-> Dec(e.oew), mzfw |-> Dec(e.mzfw), mtow |-> Dec(e.mtow), pld |-> Dec(e.pld), fuel |-> Dec(e.fuel)]
Kg1 == N(1, 0)
PointBad(e, w, i) ==
  LET r == e.rows[i + 1]  c == Corner(w, i)  v == e.flown[i] IN
  (IF Within(Dec(r.pld), c.pld, Kg1) THEN {} ELSE {"payload"}) \cup (IF Within(Dec(r.fuel), c.fuel, Kg1) THEN {} ELSE {"fuel"}) \cup
  (IF Within(Dec(r.tow), c.tow, Kg1) THEN {} ELSE {"takeoff-mass"}) \cup
  \* the flight the range is read off: at that mass, burning the fuel less the reserves
  (IF Within(Dec(v.tow), Dec(r.tow), Kg1) THEN {} ELSE {"flown-mass"}) \cup
  (IF Within(Add(Dec(v.burn), Dec(e.res)), c.fuel, N(2, 0)) THEN {} ELSE {"flown-fuel"}) \cup Is(r.range, Dec(v.range), "range")
Diagram(e) == LET w == W(e) IN
  (IF Len(e.rows) = 4 THEN UNION {PointBad(e, w, i) : i \in 1..3} ELSE {"points"}) \cup
  (IF Dec(e.rows[1].range) = Zero /\ Within(Dec(e.rows[1].pld), MaxPld(w), Kg1) THEN {} ELSE {"first-point"}) \cup
  (IF e.kept THEN {} ELSE {"earlier-diagram"}) \cup (IF e.file THEN {} ELSE {"file"})
Eline(e) ==
  (IF \A i \in 1..2 : Close(Dec(e.rows[i + 1].tow), Dec(e.flown[i].tow)) /\ Close(Mul(Dec(e.rows[i + 1].range), Dec(e.unit)), Dec(e.flown[i].range)) THEN {} ELSE {"range"}) \cup
  (IF Close(Dec(e.rows[2].pld), Dec(e.pld)) /\ Dec(e.rows[3].pld) = Zero /\ Close(Dec(e.rows[2].tow), Dec(e.mtow)) /\ Close(Dec(e.rows[3].tow), Dec(e.oew)) THEN {} ELSE {"masses"}) \cup
  (IF Dec(e.rows[1].range) = Zero /\ Close(Dec(e.rows[1].pld), Dec(e.pld)) THEN {} ELSE {"first-point"})
Stall(e) == Is(e.V, Sqrt(Stall2(Dec(e.m), N(981, -2), Dec(e.rho), Dec(e.S), Dec(e.CL))), "stall-speed")
TakeoffBad(e) ==
  LET v2 == Stall2(Dec(e.m), Dec(e.g), Dec(e.rho), Dec(e.S), Dec(e.CL))  k == Dec(e.k)  V == Mul(N(7, -1), Mul(k, Sqrt(v2)))
      c == IF e.c = <<>> THEN Takeoff(e.n) ELSE Decs(e.c)
  IN Is(e.seen.V, V, "thrust-speed") \cup Is(e.seen.M, Div(V, Dec(e.a)), "thrust-mach") \cup Is(e.seen.q, Mul(N(5, -1), Mul(Dec(e.rho), Mul(V, V))), "thrust-pressure") \cup
     Is(e.seen.T, Dec(e.T), "thrust-air") \cup Is(e.seen.p, Dec(e.p), "thrust-air") \cup (IF Dec(e.seen.th) = N(1, 0) THEN {} ELSE {"thrust-throttle"}) \cup
     Is(e.L, TakeoffLength(c, k, v2, Dec(e.F), Dec(e.m)), "takeoff-length") \cup (IF e.kept THEN {} ELSE {"vehicle-changed"})
LandingBad(e) ==
  LET v2 == Stall2(Dec(e.m), Dec(e.g), Dec(e.rho), Dec(e.S), Dec(e.CL)) IN
  Is(e.L, LandingLength(IF e.c = <<>> THEN Landing(Dec(e.g)) ELSE Decs(e.c), Dec(e.k), v2), "landing-length") \cup (IF e.kept THEN {} ELSE {"vehicle-changed"})
\* the mass for a field: the field for that mass, unless none of the masses has it
Mass(e) ==
  UNION {LET m == Dec(e.rows[i].m)  t == Dec(e.rows[i].t)  L == Dec(e.rows[i].L) IN
         IF Less(t, Dec(e.Llo)) THEN Is(e.rows[i].m, Dec(e.lo), "lightest") ELSE IF Less(Dec(e.Lhi), t) THEN Is(e.rows[i].m, Dec(e.hi), "heaviest")
         ELSE IF Within(L, t, Mul(N(2, -3), t)) /\ AtMost(Dec(e.lo), m) /\ AtMost(m, Dec(e.hi)) THEN {} ELSE {"mass-for-field"} : i \in 1..Len(e.rows)} \cup (IF e.kept THEN {} ELSE {"vehicle-changed"})
BestBad(e) ==
  LET w == [W |-> Dec(e.W), rho |-> Dec(e.rho), S |-> Dec(e.S)]  lo == Sqrt(Stall2(Dec(e.W), N(1, 0), Dec(e.rho), Dec(e.S), Dec(e.CL)))  hi == Dec(e.hi)
      One1(r, three) == LET v == Into(Sqrt(Best2(w, Dec(e.cd0), Dec(e.k), three)), lo, hi)  x == Dec(r.v) IN
        (IF Within(x, v, Mul(N(1, -2), v)) THEN {} ELSE {"best-speed"}) \cup
        (IF Within(Dec(r.x), Ratio(w, Dec(e.cd0), Dec(e.k), x, three), Mul(N(1, -3), Dec(r.x))) THEN {} ELSE {"best-value"})
  IN UNION {One1(e.rows[i], e.rows[i].three) : i \in 1..Len(e.rows)}
\* costs: sums, and years
Cost(e) ==
  Is(e.ntotal, Sum(Decs(e.nrec)), "non-recurring-sum") \cup Is(e.rtotal, Sum(Decs(e.rec)), "recurring-sum") \cup
  Is(e.unit, Add(Div(Dec(e.rtotal), Dec(e.made)), Div(Dec(e.ntotal), Dec(e.amort))), "unit-cost") \cup
  UNION {IF Within(Sum(Decs(e.flow[i].years)), Sum(Decs(e.flow[i].of)), Mul(N(1, -4), Sum(Decs(e.flow[i].of)))) THEN {} ELSE {"years-" \o e.flow[i].name} : i \in 1..Len(e.flow)} \cup
  (IF \A i \in 1..Len(e.flow) : Len(e.flow[i].years) = e.years /\ (\A y \in 1..e.years : Less(N(-1, -6), Dec(e.flow[i].years[y])) \/ AtMost(Zero, Dec(e.flow[i].years[y]))) THEN {} ELSE {"years"}) \cup
  (IF Len(e.total) = e.years /\ \A y \in 1..e.years : Close(Dec(e.total[y]), Sum([i \in 1..Len(e.flow) |-> Dec(e.flow[i].years[y])])) THEN {} ELSE {"year-sum"}) \cup
  (IF Within(Sum(Decs(e.total)), Dec(e.ntotal), Mul(N(1, -4), Dec(e.ntotal))) THEN {} ELSE {"all-years"}) \cup
  \* what is bought by the piece: avionics as told, engines with one spare in ten for the prototypes
  (IF Close(Dec(e.av[1]), Mul(Dec(e.av[3]), Dec(e.protos))) /\ Close(Dec(e.av[2]), Mul(Dec(e.av[3]), Dec(e.made))) THEN {} ELSE {"avionics"}) \cup
  (IF Close(Mul(Dec(e.eng[1]), Dec(e.made)), Mul(N(11, -1), Mul(Dec(e.eng[2]), Dec(e.protos)))) THEN {} ELSE {"engines"}) \cup
  (IF \A i \in 1..3 : Dec(e.told[i][1]) = Dec(e.told[i][2]) THEN {} ELSE {"as-told"}) \cup
  (IF e.again THEN {} ELSE {"again"}) \cup (IF e.kept THEN {} ELSE {"vehicle-changed"}) \cup
  UNION {Is(e.rates[i].r, Add(Mul(Dec(e.rates[i].a), Dec(e.year)), Dec(e.rates[i].b)), "rates") : i \in 1..Len(e.rates)}
\* loads: speeds in equivalent knots
Side(e, s, c) == LET q == IF s = 1 THEN e.pos ELSE e.neg IN
  UNION {Is(e.lines[s][i].n, Mul(N(IF s = 1 THEN 1 ELSE -1, 0), Pow(Div(Dec(e.lines[s][i].v), Dec(q.Vs)), 2)), "stall-line") : i \in 1..Len(e.lines[s])}
Loads(e, cmac) ==
  LET ws == Div(Dec(e.w), Dec(e.S))  cla == Dec(e.cla)  Vc == Dec(e.Vc)  Vd == Dec(e.Vd)
      up == Limit(e.cat, Dec(e.w), Dec(e.told1))  dn == Below(e.cat, e.part, up, Dec(e.told2))
      mu == Div(Mul(N(2, 0), ws), Mul(Mul(Dec(e.rho), cmac), Mul(cla, Dec(e.g))))
      U == Gust(e.part, e.cat, Dec(e.h))
      least == IF e.part = 25 THEN LeastCruise25(Dec(e.pos.Vs), Kg(mu), cla, U[1], ws) ELSE LeastCruise23(e.cat, ws)
      KT == Div(Mul(N(185200, -2), N(1, 0)), Mul(N(3600, 0), Ft))      \* feet per second in a knot
      q0(v) == Mul(N(5, -1), Mul(Dec(e.rho0), Pow(Mul(v, KT), 2)))
      g(s, i) == Dec((IF s = 1 THEN e.pos ELSE e.neg).gust[i])
      sg(s, u) == IF s = 1 THEN u ELSE Neg(u)
  IN Is(e.n1, up, "limit") \cup Is(e.n2, dn, "limit-negative") \cup
     \* at the stall speed the wing lifts the weight; at the maneuver speed the limit
     (IF Close(Mul(Mul(q0(Dec(e.pos.Vs)), Dec(e.S)), Dec(e.CL1)), Dec(e.w)) /\ Close(Mul(Mul(q0(Dec(e.neg.Vs)), Dec(e.S)), Neg(Dec(e.CL2))), Dec(e.w)) THEN {} ELSE {"stall-speed"}) \cup
     (IF Close(Mul(Mul(q0(Dec(e.pos.Va)), Dec(e.S)), Dec(e.CL1)), Mul(up, Dec(e.w))) /\ Close(Mul(Mul(q0(Dec(e.neg.Va)), Dec(e.S)), Neg(Dec(e.CL2))), Neg(Mul(dn, Dec(e.w)))) THEN {} ELSE {"maneuver-speed"}) \cup
     Side(e, 1, 0) \cup Side(e, 2, 0) \cup
     UNION {(IF Near(g(s, 3), GustLoad(Kg(mu), cla, Vc, sg(s, U[1]), ws)) THEN {} ELSE {"cruise-gust"}) \cup (IF Near(g(s, 4), GustLoad(Kg(mu), cla, Vd, sg(s, U[2]), ws)) THEN {} ELSE {"dive-gust"}) : s \in 1..2} \cup
     (IF AtMost(least, Vc) /\ Close(Vc, Cruise(Dec(e.Vc0), Max(Dec(e.pos.Va), Dec(e.neg.Va)), least)) THEN {} ELSE {"cruise-speed"}) \cup
     (IF Close(Vd, Dive(e.part, e.cat, Vc, least, ws)) THEN {} ELSE {"dive-speed"}) \cup
     \* what is told covers the maneuvers and the gusts
     (IF AtMost(Max(up, Max(g(1, 3), g(1, 4))), Dec(e.lp)) /\ AtMost(Dec(e.ln), Min(dn, Min(g(2, 3), g(2, 4)))) THEN {} ELSE {"covers"}) \cup
     (IF e.top /\ e.bottom THEN {} ELSE {"extremes"}) \cup (IF e.kept THEN {} ELSE {"vehicle-changed"})
Bad(e) ==
  CASE e.op = "diagram" -> Diagram(e) [] e.op = "eline" -> Eline(e) [] e.op = "stall" -> Stall(e) [] e.op = "takeoff" -> TakeoffBad(e) [] e.op = "landing" -> LandingBad(e)
    [] e.op = "mass" -> Mass(e) [] e.op = "best" -> BestBad(e) [] e.op = "cost" -> Cost(e) [] e.op = "loads" -> Loads(e, Dec(e.cmac)) [] OTHER -> {}
\* known (known_findings.txt): the chord of the last wing
Init == l = 1 /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN skip' = FALSE
     ELSE IF skip THEN UNCHANGED skip
     ELSE LET bad == Bad(e) IN
          IF bad = {} THEN skip' = FALSE
          ELSE IF e.op = "loads" /\ e.last # e.cmac /\ Loads(e, Dec(e.last)) = {} THEN skip' = FALSE /\ PrintT("DEVIATES" \o ToJson([line |-> l, clauses |-> {"loads:chord-of-last-wing"}]))
          ELSE skip' = TRUE /\ PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> <<>>]))
Spec == Init /\ [][Next]_<<l, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
