------------------------------- MODULE Flight -------------------------------
(* C10. Missions of segments flown one after the other.  A mission is a list of   *)
(* segment inputs; flying it gives, per segment, its control points.  Lengths,     *)
(* times, masses and speeds are in hundredths (m, s, kg, m/s); angles in 1e-4.      *)
(* What a flight must give depends on the inputs alone, never on earlier flights.   *)
(*                                                                                *)
(* The world the missions are flown in (the analyses handed to the real code):       *)
(* density 2/(1+h/1000)^2, a quarter of it when the temperature deviation is 75,      *)
(* speed of sound 400 - h/100 + deviation, mass rate mdot, gravity 10.                *)
EXTENDS Integers, Sequences, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, e) == Abs(a - b) <= e
None == -1                                    \* an altitude / speed / pitch that is inherited
\* --- groups of segment kinds -------------------------------------------------
ByRate  == {"vR", "MR", "easR", "casR", "qR", "lMR", "lvR"}      \* climb or descent at a given rate
ByAngle == {"vA", "MA", "qA"}                                    \* at a given angle (sine s/5, cosine c/5)
ByDist  == {"vL", "ML"}                                          \* straight to an altitude over a distance
Level   == {"vC", "MC", "qC", "vW", "MW", "qW", "aC", "thC", "piC", "tpC", "hov", "to", "la"}
Cruise  == {"vC", "MC", "qC"}                                    \* over a distance
Loiter  == {"vW", "MW", "qW", "hov"}                             \* for a time
Hover   == {"hov", "hcl"}
Free    == {"MA", "qA", "thR"}               \* altitudes follow from the speeds
Sloped  == ByRate \cup ByAngle \cup ByDist \cup {"thR", "hcl", "tlC"}
\* --- laws ---------------------------------------------------------------------
Sound(h, dT) == 40000 - h \div 100 + 100 * dT
Dense(v, h, dT) == ((v * (100000 + h)) \div 1000) * (IF dT = 75 THEN 2 ELSE 1)
Speed(s, h, f, v0) ==
  CASE s.kind \in {"vR", "vA", "vL", "vC", "vW", "thR"} -> 100 * s.v
    [] s.kind \in {"MR", "MA", "ML", "MC", "MW"} -> (s.v * Sound(h, s.dT)) \div 20
    [] s.kind \in {"easR", "casR", "qR", "qA", "qC", "qW"} -> Dense(s.v, h, s.dT)
    [] s.kind = "lMR" -> ((4 * s.v + (s.w - s.v) * f) * (Sound(h, s.dT) \div 4)) \div 20
    [] s.kind \in {"lvR", "aC", "tpC"} -> 100 * s.v + 25 * (s.w - s.v) * f
    [] s.kind = "hov" -> 0
    [] s.kind = "hcl" -> 100 * s.r
\* 1000 / cosine of a latitude (1e-4 degrees), from a table by degrees up to 80
Sec0 == <<1000, 1000, 1001, 1001, 1002, 1004, 1006, 1008, 1010, 1012, 1015, 1019, 1022, 1026, 1031, 1035, 1040, 1046, 1051, 1058, 1064, 1071, 1079, 1086, 1095, 1103, 1113, 1122, 1133, 1143, 1155, 1167, 1179, 1192, 1206, 1221, 1236, 1252, 1269, 1287, 1305, 1325, 1346, 1367, 1390, 1414, 1440, 1466, 1494, 1524, 1556, 1589, 1624, 1662, 1701, 1743, 1788, 1836, 1887, 1942, 2000, 2063, 2130, 2203, 2281, 2366, 2459, 2559, 2669, 2790, 2924, 3072, 3236, 3420, 3628, 3864, 4134, 4445, 4810, 5241, 5759>>
Sec(lat) == LET d == Abs(lat) \div 10000  r == Abs(lat) % 10000 IN
  IF d >= 80 THEN 100000 ELSE Sec0[d + 1] + ((Sec0[d + 2] - Sec0[d + 1]) * r) \div 10000
Given(s) == s.kind \notin {"piC", "thC", "to", "la", "tlC"}      \* kinds whose speed is an input at every point

\* the altitude a segment starts from
Start(s, pre) == IF s.a0 # None THEN 100 * s.a0 ELSE pre.alt
Up(s, pre) == 100 * s.a1 - Start(s, pre)
First == [t |-> 0, R |-> 0, x |-> 0, y |-> 0, lat |-> 0, lon |-> 0, alt |-> 0, m |-> 0, V |-> 0, vx |-> 0, vz |-> 0, th |-> 0]

\* --- what one segment's points must satisfy, given the end of its predecessor -----
Begin(s, pre, p, first, m0, la) ==
  (IF Near(p.t, pre.t, 1) THEN {} ELSE {"time-continues"}) \cup (IF Near(p.R, pre.R, 1) THEN {} ELSE {"range-continues"})
  \cup (IF Near(p.x, pre.x, 1) /\ Near(p.y, pre.y, 1) THEN {} ELSE {"position-continues"})
  \cup (IF Near(p.m, IF first THEN 100 * m0 ELSE pre.m, 1) THEN {} ELSE {"mass-continues"})
  \cup (IF Near(p.lat, IF first THEN 10000 * la ELSE pre.lat, 1) /\ Near(p.lon, pre.lon, 1) THEN {} ELSE {"coordinates-continue"})
  \cup (IF Near(p.alt, Start(s, pre), 1) THEN {} ELSE {"start-altitude"})
Point(s, pre, a, p, md) ==
  LET f == p.f IN
  (IF s.kind \in Level THEN (IF Near(p.alt, Start(s, pre), 1) THEN {} ELSE {"altitude"})
   ELSE IF s.kind \in Free THEN {}
   ELSE IF Near(p.alt, Start(s, pre) + (Up(s, pre) * f) \div 4, 1) THEN {} ELSE {"altitude"})
  \cup (IF Given(s) => Near(p.V, Speed(s, p.alt, f, 0), 3) THEN {} ELSE {"speed-law"})
  \cup (IF s.kind \in {"thC", "to", "la"} \/ Near((p.V \div 10) * (p.V \div 10), (p.vx \div 10) * (p.vx \div 10) + (p.vz \div 10) * (p.vz \div 10), 4 * (p.V \div 10) + 8) THEN {} ELSE {"speed-vector"})
  \cup (IF s.kind \in Level /\ p.vz # 0 THEN {"level"} ELSE {})
  \cup (IF s.kind \in ByRate \cup {"hcl"} /\ p.vz # (IF Up(s, pre) > 0 THEN -100 ELSE 100) * s.r THEN {"rate"} ELSE {})
  \cup (IF s.kind \in ByAngle /\ ~Near(p.vx * s.s, (IF Up(s, pre) > 0 THEN -1 ELSE 1) * p.vz * s.c, 5) THEN {"angle"} ELSE {})
  \cup (IF s.kind \in ByDist /\ ~Near(p.vx * (Up(s, pre) \div 100), -p.vz * s.d, s.d + Abs(Up(s, pre)) \div 50) THEN {"slope"} ELSE {})
  \cup (IF s.kind \in Hover /\ p.vx # 0 THEN {"hover"} ELSE {})
  \cup (IF s.kind \notin Hover /\ p.vx < 0 THEN {"backwards"} ELSE {})
  \cup (IF p.f = 0 \/ Near(p.dR, p.vx, 3) THEN {} ELSE {"range-rate"})
  \cup (IF Near(5 * (p.x - a.x), (p.R - a.R) * s.cx, 15) /\ Near(5 * (p.y - a.y), (p.R - a.R) * s.cy, 15) THEN {} ELSE {"course"})
  \cup (IF Near(p.lat - a.lat, ((p.R - a.R) * s.cx) \div 5000, 3 + Abs(p.R - a.R) \div 100000) THEN {} ELSE {"latitude"})
  \cup (IF Near(p.lon - a.lon, (((Sec(a.lat) + Sec(p.lat)) \div 2) * (((p.R - a.R) * s.cy) \div 5000)) \div 1000, 3 + Abs(p.R - a.R) \div 40000) THEN {} ELSE {"longitude"})
  \cup (IF Near(p.m, a.m - md * (p.t - a.t), 2 + md) THEN {} ELSE {"mass-law"})
  \cup (IF p.bal <= 3 THEN {} ELSE {"force-balance"})
  \cup (IF s.kind \in {"thR", "thC"} /\ p.thr # 10 * s.T THEN {"throttle"} ELSE {})
Theta0(s, pre) == IF s.p0 # None THEN 10 * s.p0 ELSE pre.th
V0(s, pre) == IF s.v # None THEN 100 * s.v ELSE pre.V
\* duration: lower and upper bound, in hundredths
Window(s, pre, pts) ==
  LET a == pts[1]  z == pts[Len(pts)]
      vz == {Abs(pts[k].vz) : k \in 1..Len(pts)}
      lo == CHOOSE v \in vz : \A u \in vz : v <= u   hi == CHOOSE v \in vz : \A u \in vz : u <= v
      Exactly(x) == <<x - 2, x + 2>>
      About(x) == <<x - 3 - x \div 2000, x + 3 + x \div 2000>>
  IN CASE s.kind \in ByRate \cup {"hcl"} -> Exactly(Abs(Up(s, pre)) \div s.r)
       [] s.kind = "vA" -> Exactly((Abs(Up(s, pre)) * 5) \div (s.v * s.s))
       [] s.kind = "vL" -> About((s.d * 10000) \div a.vx)
       [] s.kind \in {"MA", "qA", "ML"} -> <<(Abs(Up(s, pre)) * 100) \div (hi + 1) - 3, (Abs(Up(s, pre)) * 100) \div (lo - 1) + 3>>
       [] s.kind \in Cruise -> About((s.d * 10000) \div a.V)
       [] s.kind \in Loiter -> Exactly(100 * s.T)
       [] s.kind \in {"aC", "tpC"} -> Exactly(((s.w - s.v) * 100) \div s.r)
       [] s.kind = "piC" -> About((10 * (10 * s.p1 - Theta0(s, pre))) \div s.r)
       [] OTHER -> <<1, 1000000000>>
Linear(a, z, x, f) == a + ((z - a) * f) \div 4
Sane(p) == Abs(p.alt) <= 10000000 /\ Abs(p.V) <= 450000 /\ Abs(p.vx) <= 450000 /\ Abs(p.vz) <= 450000 /\ Abs(p.x) <= 100000000
           /\ Abs(p.y) <= 100000000 /\ Abs(p.R) <= 100000000 /\ Abs(p.t) <= 100000000 /\ Abs(p.m) <= 10000000
           /\ Abs(p.lat) <= 2000000 /\ Abs(p.lon) <= 4000000 /\ Abs(p.th) <= 10000000
Bad(s, pre, pts, first, m0, md, la) ==
  IF ~(Len(pts) > 1 /\ Sane(pre) /\ \A k \in 1..Len(pts) : Sane(pts[k])) THEN {"not-finite"} ELSE
  LET a == pts[1]  z == pts[Len(pts)]  w == Window(s, pre, pts) IN
  Begin(s, pre, a, first, m0, la)
  \cup UNION {Point(s, pre, a, pts[k], md) : k \in 1..Len(pts)}
  \cup (IF a.f = 0 /\ z.f = 4 THEN {} ELSE {"control-points"})
  \cup (IF w[1] <= z.t - a.t /\ z.t - a.t <= w[2] THEN {} ELSE {"duration"})
  \cup (IF \A k \in 1..Len(pts) : Near(pts[k].t, Linear(a.t, z.t, 0, pts[k].f), 2) THEN {} ELSE {"time-points"})
  \cup (IF s.kind \in Sloped /\ ~Near(z.alt, 100 * s.a1, 1) THEN {"end-altitude"} ELSE {})
  \cup (IF s.kind \in Free /\ ~\A k \in 2..Len(pts) : (pts[k].alt > pts[k-1].alt) <=> (Up(s, pre) > 0) THEN {"altitude"} ELSE {})
  \cup (IF s.kind \in Cruise /\ ~Near(z.R - a.R, 100 * s.d, 2) THEN {"distance"} ELSE {})
  \cup (IF s.kind \in {"piC", "tpC"} /\ ~\A k \in 1..Len(pts) : Near(pts[k].th, Linear(Theta0(s, pre), 10 * s.p1, 0, pts[k].f), 2) THEN {"pitch-law"} ELSE {})
  \cup (IF s.kind \in {"thC", "to", "la"} /\ ~(Near(a.V, V0(s, pre), 2) /\ Near(z.V, 100 * s.w, 2)) THEN {"end-speeds"} ELSE {})
  \cup (IF s.kind \in {"tlC"} /\ ~(Near(a.V, V0(s, pre), 2)) THEN {"end-speeds"} ELSE {})

\* nominal points of the kinds with closed forms (used by the bounded model)
Closed == {"vR", "vA", "vC", "vW", "hov", "hcl"}
Nominal(s, pre, f, md) ==
  LET T == CASE s.kind \in {"vR", "hcl"} -> Abs(Up(s, pre)) \div s.r
             [] s.kind = "vA" -> (Abs(Up(s, pre)) * 5) \div (s.v * s.s)
             [] s.kind = "vC" -> (s.d * 100) \div s.v
             [] OTHER -> 100 * s.T
      up == IF s.kind \in Level THEN 0 ELSE Up(s, pre)
      vz == CASE s.kind \in {"vR", "hcl"} -> 100 * s.r [] s.kind = "vA" -> 20 * s.v * s.s [] OTHER -> 0
      vx == CASE s.kind = "vR" -> 100 * s.gx [] s.kind = "vA" -> 20 * s.v * s.c [] s.kind \in Hover -> 0 [] OTHER -> 100 * s.v
      dt == (T * f) \div 4   dR == ((vx \div 100) * T * f) \div 4
  IN [f |-> f, t |-> pre.t + dt, R |-> pre.R + dR, dR |-> vx, x |-> pre.x + (dR * s.cx) \div 5, y |-> pre.y + (dR * s.cy) \div 5,
      lat |-> pre.lat + (dR * s.cx) \div 5000, lon |-> pre.lon + (dR * s.cy) \div 5000,
      alt |-> Start(s, pre) + (up * f) \div 4, m |-> pre.m - md * dt, V |-> IF s.kind = "hov" THEN 0 ELSE IF s.kind = "hcl" THEN 100 * s.r ELSE 100 * s.v,
      vx |-> vx, vz |-> IF up > 0 THEN -vz ELSE vz, th |-> 0, thr |-> 0, bal |-> 0]

\* --- the mission as a state ------------------------------------------------------
Put(ss, i, key, val) == [ss EXCEPT ![i] = [k \in DOMAIN ss[i] |-> IF k = key THEN val ELSE ss[i][k]]]
End(pts) == pts[Len(pts)]
=============================================================================
