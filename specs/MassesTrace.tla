---------------------------- MODULE MassesTrace ----------------------------
EXTENDS Masses, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip       \* st: v: vehicles, f: reduction factors, m: what has been weighed
Kind(m) == CASE m \in {"SUAVE", "New SUAVE"} -> "SUAVE" [] m \in {"FLOPS Simple", "FLOPS Complex"} -> "FLOPS" [] OTHER -> m
DecF(g) == [k \in DOMAIN g |-> Dec(g[k])]
DecS(s) == [i \in 1..Len(s) |-> Dec(s[i])]
Left(f) == N(1000 - f, -3)
Raw(x, f) == Div(Dec(x), Left(f))
\* ---- what a mass depends on
TailKey(m, p, t) == ToString(<<"tail", Kind(m), t.kind, t.shape, p.wing, p.mtow, p.sref, IF m = "Raymer" THEN p.fus ELSE 0>>)
WingKey(m, p) == IF Kind(m) = "SUAVE" THEN ToString(<<"wing", m, p.wing, p.mtow, p.zf, p.sref>>) ELSE IF m = "Raymer" THEN ToString(<<"wing", m, p.wing, p.mtow, p.acc>>) ELSE ToString(<<"wing", m, p>>)
FusKey(m, p, f) == IF Kind(m) = "SUAVE" THEN ToString(<<"fus", m, p.wing, p.fus, p.mtow, p.zf, p.sref, p.nets, f.wing>>) ELSE IF m = "Raymer" THEN ToString(<<"fus", m, p.wing, p.fus, p.mtow>>) ELSE ToString(<<"fus", Kind(m), p>>)
EngKey(m, p, n) == IF Kind(m) = "SUAVE" THEN ToString(<<"eng", n.t>>) ELSE ToString(<<"eng", Kind(m), n, p.acc, p.zf, p.fus>>)
Whole(m, p, f, k) == ToString(<<"all", m, p, f, k>>)
Weighed(m, p, f, e) ==
  {[k |-> TailKey(m, p, p.tails[i]), x |-> Raw(e.comps.tails[i], f.emp)] : i \in 1..Len(p.tails)} \cup
  {[k |-> WingKey(m, p), x |-> Raw(e.comps.wing, f.wing)], [k |-> FusKey(m, p, f), x |-> Raw(e.comps.fuselage, f.fus)]} \cup
  {[k |-> EngKey(m, p, p.nets[i]), x |-> Div(Dec(e.comps.nets[i]), IF Kind(m) = "SUAVE" THEN I(p.nets[i].n) ELSE I(1))] : i \in {i \in 1..Len(p.nets) : p.nets[i].pre = 0}} \cup
  {[k |-> Whole(m, p, f, "empty"), x |-> Dec(e.got.empty)], [k |-> Whole(m, p, f, "sys"), x |-> Dec(e.got.systems.total)], [k |-> Whole(m, p, f, "items"), x |-> Dec(e.got.oper.total)]}
Agree(w) == \A a \in w : \A b \in st.m \cup w : a.k = b.k => Close(a.x, b.x)
Data1(m, p) == Kind(m) # "SUAVE" /\ \E i \in 1..Len(p.nets) : p.nets[i].pre = 0
PayOK(m, p, g, total) == LET w == Payload(Kind(m), p) IN Same(Dec(g.passengers), w.passengers) /\ Same(Dec(g.baggage), w.baggage) /\ Same(Dec(g.cargo), w.cargo) /\ (total => Same(Dec(g.total), w.total))
\* the FLOPS payload adds its cargo in pounds
PayOdd(m, p, g) == Kind(m) = "FLOPS" /\ p.cargo > 0 /\ LET w == Payload("FLOPS", p) IN Same(Dec(g.total), Add(Add(w.passengers, w.baggage), Div(w.cargo, Lb)))
PropParts(g) == LET q == SumOver(DecF(g), DOMAIN g \ {"total"}) IN q
WeighBad(e) ==
  LET p == st.v[e.v]  f == st.f[e.s]  m == e.method  g == e.got  c == e.comps  mt == Add(I(p.mtow), Dec(g.zero_fuel_weight))
      s == DecF(g.structures)  y == DecF(g.systems)  o == DecF(g.oper)  pr == DecF(g.propulsion) IN
  (IF Adds(s) THEN {} ELSE {"structures-total"}) \cup
  (IF Adds(y) THEN {} ELSE {"systems-total"}) \cup
  (IF Adds(o) THEN {} ELSE {"items-total"}) \cup
  (IF PayOK(m, p, g.payload, ~ PayOdd(m, p, g.payload)) THEN {} ELSE {"payload"}) \cup
  (IF Same(pr.total, SumSeq(DecS(c.nets))) THEN {} ELSE {"propulsion-total"}) \cup
  (IF Data1(m, p) /\ Len(p.nets) = 1 => Same(Sub(pr.total, s.nacelle), PropParts(g.propulsion)) \/ Same(pr.total, PropParts(g.propulsion)) THEN {} ELSE {"propulsion-parts"}) \cup
  (IF \A i \in 1..Len(p.nets) : p.nets[i].pre > 0 => Same(Dec(c.nets[i]), I(p.nets[i].pre)) THEN {} ELSE {"given-network"}) \cup
  (IF Near(Dec(g.empty), Add(s.total, Add(pr.total, y.total)), mt) THEN {} ELSE {"empty"}) \cup
  (IF Near(Dec(g.operating_empty), Add(Dec(g.empty), o.total), mt) THEN {} ELSE {"operating-empty"}) \cup
  (IF Near(Dec(g.zero_fuel_weight), Add(Dec(g.operating_empty), Dec(g.payload.total)), mt) THEN {} ELSE {"zero-fuel"}) \cup
  (IF Near(Add(Dec(g.fuel), Dec(g.zero_fuel_weight)), I(p.mtow), mt) /\ Same(Dec(g.max_takeoff), I(p.mtow)) THEN {} ELSE {"fuel"}) \cup
  (IF LET w == Crew(Kind(m), p) IN Same(o.flight_crew, w.flight_crew) /\ Same(o.flight_attendants, w.flight_attendants) THEN {} ELSE {"crew"}) \cup
  (IF Kind(m) # "FLOPS" => Same(o.operating_items_less_crew, Items(p)) THEN {} ELSE {"items"}) \cup
  (IF Kind(m) = "SUAVE" => LET w == Systems(p, [i \in 1..Len(p.tails) |-> p.tails[i].area]) IN \A k \in DOMAIN w : Same(y[k], w[k]) THEN {} ELSE {"systems"}) \cup
  (IF Kind(m) = "SUAVE" => LET w == Gear(p) IN \A k \in DOMAIN w : Same(s[k], w[k]) THEN {} ELSE {"gear"}) \cup
  \* the parts carry what the statement says
  (IF Same(s.wing, Dec(c.wing)) /\ Same(s.fuselage, Dec(c.fuselage)) /\ Len(c.tails) = Len(p.tails)
      /\ \A k \in {"h", "v"} : Near(s[IF k = "h" THEN "horizontal_tail" ELSE "vertical_tail"], SumSeq([i \in 1..Len(p.tails) |-> IF p.tails[i].kind = k THEN Dec(c.tails[i]) ELSE Zero]), mt) THEN {} ELSE {"part-masses"}) \cup
  (IF \A k \in {"control_systems", "apu", "hydraulics", "electrical_systems", "furnishings", "air_conditioner"} :
        Same(Dec(c.sys[k]), y[CASE k = "electrical_systems" -> "electrical" [] k = "furnishings" -> "furnish" [] OTHER -> k]) THEN {} ELSE {"system-masses"}) \cup
  (IF Near(Dec(c.sys.avionics), Add(y.avionics, y.instruments), mt) /\ Near(Dec(c.sys.fuel), Dec(g.fuel), mt) /\ Same(Dec(c.sys.optionals), o.operating_items_less_crew) THEN {} ELSE {"other-masses"}) \cup
  (IF \A k \in {"passengers", "baggage", "cargo"} : Same(Dec(c.pay[k]), Dec(g.payload[k])) THEN {} ELSE {"payload-masses"}) \cup
  (IF Agree(Weighed(m, p, f, e)) THEN {} ELSE {"history"}) \cup
  (IF e.kept THEN {} ELSE {"input-changed"}) \cup (IF e.others THEN {} ELSE {"others-changed"}) \cup (IF e.given THEN {} ELSE {"result-not-kept"})
WeighDev(e) ==
  LET p == st.v[e.v]  m == e.method  g == e.got IN
  (IF PayOdd(m, p, g.payload) THEN {"flops-cargo-in-pounds"} ELSE {}) \cup
  (IF Data1(m, p) /\ Len(p.nets) = 1 /\ ~ Same(Dec(g.propulsion.total), PropParts(g.propulsion)) THEN {"nacelle-in-two-groups"} ELSE {}) \cup
  (IF Data1(m, p) /\ Len(p.nets) > 1 /\ ~ Same(Dec(g.propulsion.total), PropParts(g.propulsion)) THEN {"parts-of-one-network"} ELSE {}) \cup
  (IF Same(Dec(e.comps.gear.main), Dec(g.structures.main_landing_gear)) /\ Same(Dec(e.comps.gear.nose), Dec(g.structures.nose_landing_gear)) THEN {} ELSE {"gear-mass-elsewhere"})
\* ---- a statement of another method: groups add up to the empty mass
PlainBad(e) ==
  LET g == e.got  mt == Dec(e.mtow) IN
  (IF \A k \in DOMAIN e.groups : Adds(DecF(e.groups[k])) THEN {} ELSE {"groups"}) \cup
  (IF Near(Dec(g.empty), SumSeq(DecS(e.parts)), mt) THEN {} ELSE {"empty"}) \cup
  (IF \A i \in 1..Len(e.chain) : Near(Dec(e.chain[i][1]), Add(Dec(e.chain[i][2]), Dec(e.chain[i][3])), mt) THEN {} ELSE {"closure"}) \cup
  (IF \A i \in 1..Len(e.carried) : Near(Dec(e.carried[i][1]), Dec(e.carried[i][2]), mt) THEN {} ELSE {"carried"}) \cup
  (IF \A b \in st.m : b.k = ToString(<<"plain", e.name>>) => Close(b.x, Dec(g.empty)) THEN {} ELSE {"history"})
PlainDev(e) == IF e.lost # <<>> /\ ~ Same(Dec(e.lost[1]), Add(Dec(e.lost[2]), Dec(e.lost[3]))) THEN {"ga-fuel-system"} ELSE {}
\* ---- fuel and centres of gravity
Mm(ts, j, n) == LET S[i \in 0..Len(ts)] == IF i = 0 THEN 0 ELSE LET s == S[i - 1] IN s + ts[i].c IN Div(Mul(I(S[Len(ts)]), I(j)), I(n))
RECURSIVE MomD(_, _)
MomD(ts, m) == IF ts = <<>> \/ m.m <= 0 THEN Zero ELSE LET c == I(ts[1].c)  q == IF Less(m, c) THEN m ELSE c IN Add(Mul(q, I(ts[1].x)), MomD(Tail(ts), Sub(m, c)))
TanksBad(e) ==
  LET fr == Ahead({e.tanks[i] : i \in 1..Len(e.tanks)})  sc == I(1000) IN
  (IF \A j \in 1..Len(e.at) : LET m == Dec(e.at[j].m) IN Near(Mul(m, Dec(e.at[j].lo)), MomD(fr, m), Mul(m, sc)) /\ Near(Mul(m, Dec(e.at[j].hi)), MomD(Rev(fr), m), Mul(m, sc)) THEN {} ELSE {"fuel-range"}) \cup
  (IF Same(Dec(e.at[Len(e.at)].m), SumSeq([i \in 1..Len(fr) |-> I(fr[i].c)])) THEN {} ELSE {"full"}) \cup (IF e.kept THEN {} ELSE {"tanks-changed"})
MissionBad(e) == IF \A i \in 1..3 : Near(Mul(Dec(e.cg[i]), Add(Dec(e.zf), Dec(e.fuel))), Add(Mul(Dec(e.zcg[i]), Dec(e.zf)), Mul(Add(Dec(e.fcg[i]), Dec(e.fo[i])), Dec(e.fuel))), Mul(I(100), Add(Dec(e.zf), Dec(e.fuel)))) THEN {} ELSE {"mission-cg"}
Cm(x) == N(x, -2)
BalanceBad(e) ==
  LET p == st.v[e.v]  L == Cm(e.L)  x == [k \in DOMAIN e.x |-> Dec(e.x[k])]  w == I(100)
      wx == Add(Cm(e.wing.o), Add(Cm(e.wing.ac), Mul(N(5, -2), Cm(e.wing.mac))))
      ms == DecS(e.nets.m)
      tot == SumSeq(ms)
      mom == SumSeq([i \in 1..Len(ms) |-> Mul(ms[i], Add(Div(SumSeq([j \in 1..Len(e.nets.xs[i]) |-> Cm(e.nets.xs[i][j])]), I(Len(e.nets.xs[i]))), Mul(N(5, -1), Cm(e.nets.len[i]))))])
      prop == IF tot.m = 0 THEN Zero ELSE Div(mom, tot) IN
  (IF \A k \in {"furnishings", "passengers", "baggage", "cargo", "optionals"} : Near(x[k], Mul(N(51, -2), L), w) THEN {} ELSE {"cabin-place"}) \cup
  (IF Near(x.apu, Mul(N(9, -1), L), w) /\ Near(x.avionics, Mul(N(4, -1), Cm(e.nose)), w) /\ Near(x.air_conditioner, Cm(e.nose), w) /\ Near(x.nose_gear, Mul(N(25, -2), Cm(e.nose)), w) THEN {} ELSE {"nose-tail-place"}) \cup
  (IF Near(x.wing, wx, w) /\ Near(x.fuel, wx, w) /\ Near(x.control_systems, Add(wx, Mul(N(1, -1), Cm(e.wing.mac))), w) THEN {} ELSE {"wing-place"}) \cup
  (IF Near(x.fuselage, Mul(N(45, -2), Cm(e.fus)), w) THEN {} ELSE {"fuselage-place"}) \cup
  (IF Near(x.electrical_systems, Add(Mul(N(375, -3), L), Mul(N(25, -2), prop)), w) THEN {} ELSE {"electrical-place"}) \cup
  (IF Near(x.hydraulics, Add(Mul(N(75, -2), wx), Mul(N(2375, -4), L)), w) THEN {} ELSE {"hydraulics-place"})
Clauses(e) ==
  CASE e.op = "weigh" -> WeighBad(e) [] e.op = "plain" -> PlainBad(e) [] e.op = "tanks" -> TanksBad(e) [] e.op = "mission" -> MissionBad(e) [] e.op = "balance" -> BalanceBad(e) [] OTHER -> {}
Step(e) ==
  CASE e.op \in {"make", "edit"} -> [st EXCEPT !.v[e.v] = e.p]
    [] e.op = "copy" -> [st EXCEPT !.v[e.v] = st.v[e.a]]
    [] e.op = "set" -> [st EXCEPT !.f[e.s] = e.f]
    [] e.op = "weigh" -> [st EXCEPT !.m = @ \cup Weighed(e.method, st.v[e.v], st.f[e.s], e)]
    [] e.op = "plain" -> [st EXCEPT !.m = @ \cup {[k |-> ToString(<<"plain", e.name>>), x |-> Dec(e.got.empty)]}]
    [] OTHER -> st
Fresh == [v |-> [i \in 1..3 |-> 0], f |-> [s \in 1..2 |-> [wing |-> 0, emp |-> 0, fus |-> 0]], m |-> {}]
Init == l = 1 /\ st = Fresh /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Fresh /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e)  dev == IF e.op = "weigh" THEN WeighDev(e) ELSE IF e.op = "plain" THEN PlainDev(e) ELSE {} IN
          /\ st' = (IF bad = {} THEN Step(e) ELSE st) /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> <<>>]))
          /\ dev # {} => PrintT("DEVIATES" \o ToJson([line |-> l, clauses |-> dev]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
