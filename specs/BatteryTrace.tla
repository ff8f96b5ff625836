---------------------------- MODULE BatteryTrace ----------------------------
EXTENDS Battery, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip                \* st: [w, ss]
\* a point: [t (0.01 s), e (0.1 J), w (0.1 J: work done on the battery since the start of the leg, losses out), h (0.1 J: heat since then), soc (0.0001), q (A s), temp (0.01 K)]
\* a leg's result: [conv, pts, aged (0.1 J), day, fade, growth (ppm), day0, fade0, growth0]
Last(r) == r.pts[Len(r.pts)]
Bad(w, g, s, first, r, prev) ==
  IF Len(r.pts) # 4 THEN {"points"} ELSE
  LET cap == Cap(w, g, s, first)  f == <<0, 1, 3, 4>>  a == r.pts[1] IN
  (IF r.conv \/ w.nmc THEN {} ELSE {"converged"}) \cup
  (IF Near(a.e, IF first THEN 10 * w.e0 ELSE Last(prev).e, 2) THEN {} ELSE {"energy-continues"}) \cup
  (IF Near(a.q, IF first THEN w.q0 ELSE Last(prev).q, 1) THEN {} ELSE {"throughput-continues"}) \cup
  (IF Near(a.t, IF first THEN 0 ELSE Last(prev).t, 1) THEN {} ELSE {"time-continues"}) \cup
  (IF Near(a.temp, IF s.temp # 0 THEN 100 * s.temp ELSE IF first THEN 28815 ELSE Last(prev).temp, 2) THEN {} ELSE {"temperature-continues"}) \cup
  (IF first \/ (r.day0 = prev.day /\ r.fade0 = prev.fade /\ r.growth0 = prev.growth) THEN {} ELSE {"age-continues"}) \cup
  (IF r.day = r.day0 + (IF s.inc /\ w.nmc THEN 1 ELSE 0) THEN {} ELSE {"day"}) \cup
  (IF r.fade <= r.fade0 /\ r.growth >= r.growth0 /\ r.fade > 0 /\ (w.nmc \/ (r.fade = r.fade0 /\ r.growth = r.growth0)) THEN {} ELSE {"ageing"}) \cup
  (IF w.nmc /\ r.day0 = 0 /\ r.fade0 = 1000000 /\ Last(r).q > 40 => r.fade < 1000000 THEN {} ELSE {"use-ages"}) \cup
  (IF ~first \/ (r.day0 = w.day0 /\ r.fade0 = w.fade /\ r.growth0 = w.grow) THEN {} ELSE {"start-values"}) \cup
  \* capacity: as handed on; a charge refills the energy the mission started with, less what has faded
  (IF Near(r.aged, 10 * (IF w.nmc /\ ~s.dis /\ ~first THEN (g.emis * (prev.fade \div 100)) \div 10000 ELSE AgedIn(w, g, s, first)), IF w.nmc THEN 60 ELSE 2) THEN {} ELSE {"capacity"}) \cup
  \* energy: start, plus the work, up to capacity when charging
  LET full == IF w.nmc \/ ~Exact(w) THEN r.aged ELSE 10 * cap IN
  (IF \A k \in 1..4 : Near(r.pts[k].e, IF ~Stores(s) THEN a.e + r.pts[k].w ELSE Min(a.e + r.pts[k].w, Max(full, a.e)), 8) THEN {} ELSE {"energy-balance"}) \cup
  (IF ~w.nmc => \A k \in 1..4 : Near(r.pts[k].temp - a.temp, (r.pts[k].h * 10) \div w.hc, 3) THEN {} ELSE {"warms"}) \cup
  (IF Exact(w) => \A k \in 1..4 : r.pts[k].h = 0 THEN {} ELSE {"losses"}) \cup
  (IF \A k \in 1..4 : LET x == r.pts[k] IN Near(x.soc, Clamp((1000 * (x.e \div 10)) \div (full \div 100), 0, 10000), 8) THEN {} ELSE {"state-of-charge"}) \cup
  (IF \A k \in 1..4 : Near(100 * (r.pts[k].q - a.q), (Amps(w, s) * (r.pts[k].t - a.t)) \div (IF w.nmc THEN w.par ELSE 1), 150) THEN {} ELSE {"throughput"}) \cup
  (IF s.dis THEN IF Near(Last(r).t - a.t, 100 * s.T, 2) THEN {} ELSE {"duration"}
   ELSE IF Near((Last(r).t - a.t) * (Power(w, s) \div 5), (((IF first THEN 10 * w.e0 ELSE prev.aged) - a.e) \div 2) * 5, 600) THEN {} ELSE {"duration"}) \cup
  (IF \A k \in 1..4 : Near((r.pts[k].t - a.t) * 4, (Last(r).t - a.t) * f[k], 4) THEN {} ELSE {"time-points"}) \cup
  (IF ~Exact(w) THEN {} ELSE                          \* no losses: the numbers themselves
    (IF \A k \in 1..4 : Near(r.pts[k].e, 10 * Energy(w, g, s, first, f[k]), 10) THEN {} ELSE {"energy"}) \cup
    (IF \A k \in 1..4 : Near(r.pts[k].t, 100 * Time(w, g, s, first, f[k]), 610) THEN {} ELSE {"time"}))
FlyBad(e) ==
  IF Len(e.res) # Len(st.ss) THEN {"legs"}
  ELSE LET F == Legs(st.w, st.ss) IN
       UNION {LET p == IF i = 1 THEN e.res[1] ELSE e.res[i - 1]
                  g == IF ~Exact(st.w) /\ i > 1 THEN [F[i - 1] EXCEPT !.aged = p.aged \div 10, !.e = Last(p).e \div 10] ELSE F[i - 1]
              IN Bad(st.w, g, st.ss[i], i = 1, e.res[i], p) : i \in 1..Len(st.ss)}
SizeBad(e) == LET r == CASE e.how = "mass" -> FromMass(e.b) [] e.how = "needs" -> FromNeeds(e.b) [] e.how = "circuit" -> FromCircuit(e.b)
              IN IF \A k \in DOMAIN r : Near(r[k], e.got[k], 0) THEN {} ELSE {"pack-" \o e.how}
Clauses(e) == CASE e.op = "fly" -> FlyBad(e)
                [] e.op = "size" -> SizeBad(e)
                [] e.op = "gain" -> (IF Near(e.rate, e.factor * e.power, 1) /\ Near(e.total, e.factor * e.energy, 1) THEN {} ELSE {"mass-gain"})
                [] OTHER -> {}
Init == l = 1 /\ st = <<>> /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = [w |-> e.w, ss |-> <<>>] /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = (CASE e.op = "add" -> [st EXCEPT !.ss = Append(@, e.leg)] [] e.op = "edit" -> [st EXCEPT !.ss[e.i] = e.leg] [] OTHER -> st)
          /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
