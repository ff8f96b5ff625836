------------------------------ MODULE WingTrace ------------------------------
EXTENDS Wing, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip     \* st: the wing as the specification has it; air: what the vortex lattice gave first
T(b) == 12 + Abs(b) \div 3000
Is(x, b, n) == IF Near(x, b, T(b)) THEN {} ELSE {n}
\* what the code is known to do instead (known_findings.txt): a wing of one side without segments is taken as if it were
\* half as long, and one with segments twice as thick
DevLe(w) == TanQ(w) + MulDiv((w.st[1].c - w.st[2].c) \div 2, 100000, w.semi)
DevAc(w) == LET y == Y(w) \div 2  z == MulDiv(y, w.st[1].d, 1000)  x == Mac(w) \div 4 + MulDiv(y, DevLe(w), 100000) IN IF w.vert THEN <<x, z, y>> ELSE <<x, y, z>>
DevLength(w) == MulDiv(DevLe(w), w.semi, 200000) + w.st[2].c
Plain(e, dev) == dev /\ e.by = "plain"
Thick(w, e, dev) == IF dev /\ e.by = "segments" THEN 2 * Tc(w) ELSE Tc(w)
ShapeBad(e, dev) ==
  LET w == st.w  p == Plain(e, dev)  c == IF p THEN DevAc(w) ELSE Ac(w) IN
  Is(e.tip, w.st[P(w) + 1].c, "tip") \cup Is(e.taper, Taper(w), "taper") \cup Is(e.mac, Mac(w), "mean-aerodynamic-chord") \cup
  Is(e.mgc, Mgc(w), "mean-geometric-chord") \cup Is(e.le, IF p THEN DevLe(w) ELSE TanLe(w), "leading-edge") \cup Is(e.q, TanQ(w), "quarter-chord") \cup
  Is(e.length, IF p THEN DevLength(w) ELSE Length(w), "length") \cup Is(e.true, True(w), "true-span") \cup Is(e.tc, Thick(w, e, dev), "thickness") \cup Is(e.root, w.st[1].c, "root") \cup
  UNION {Is(e.ac[k], c[k], "aerodynamic-centre") : k \in 1..3} \cup
  (IF e.own THEN Is(e.S, S(w), "area") \cup Is(e.wet, Wet(w), "wetted") \cup Is(e.AR, AR(w), "aspect-ratio") ELSE {})
\* panels with o of the root covered by the body, and the wing from them
PanelsBad(e, dev) ==
  LET w == st.w  t == Thick(w, e, dev)  n == P(w)
      x(i) == Sides(w) * ExpP(w, i, e.o)
  IN UNION {Is(e.ref[i], Sides(w) * A(w, i), "panel-area") \cup Is(e.exp[i], x(i), "panel-exposed") \cup Is(e.wet[i], WetE(x(i), t), "panel-wetted") : i \in 1..n} \cup
     UNION {Is(e.mac[i], MacP(w, i), "panel-chord") \cup Is(e.taper[i], MulDiv(w.st[i + 1].c, 100000, w.st[i].c), "panel-taper") : i \in (IF e.o = 0 THEN 1..n ELSE 2..n)} \cup
     (IF Len(e.ref) = n THEN {} ELSE {"panels"}) \cup Is(e.S, S(w), "area-kept") \cup
     (IF Near(e.W, Sum(e.wet, n), 6 + Abs(e.W) \div 10000) THEN {} ELSE {"wetted-sum"})
\* every surface in pieces, one on each panel it reaches
SurfBad(e) ==
  UNION {LET s == e.s[k]  w == st.w  got == {x \in 1..Len(e.got) : e.got[x].s = k}
             want == Pieces(w, s) IN
    (IF {e.got[x].p : x \in got} = want /\ Cardinality(got) = Cardinality(want) THEN {} ELSE {"surface-pieces"}) \cup
    (IF \A x \in got : LET g == e.got[x] IN g.p \in want =>
          /\ Near(g.a, Piece(w, s, g.p)[1], 1) /\ Near(g.b, Piece(w, s, g.p)[2], 1)
          /\ Near(g.span, MulDiv(s.span, g.b - g.a, s.b - s.a), 2 + s.span \div 1000)
     THEN {} ELSE {"surface-piece"}) \cup
    (IF \A x \in got : e.got[x].kept THEN {} ELSE {"surface-settings"}) : k \in 1..Len(e.s)}
ChordBad(e) == UNION {Is(e.c[k], ChordAt(st.w, e.y[k]), "chord-at") \cup (IF Near(e.back[k], e.y[k], 4 + e.y[k] \div 1000) THEN {} ELSE {"span-of-chord"}) : k \in 1..Len(e.y)}
\* the mesh covers the wing and nothing else
MeshBad(e, dev) ==
  LET w == st.w  n == P(w) + 1  tips == 1..n
      le == [i \in tips |-> IF Plain(e, dev) /\ i = n THEN MulDiv(DevLe(w), w.semi, 100000) ELSE Le(w, i)]
      fr == CHOOSE x \in {le[i] : i \in tips} : \A j \in tips : x <= le[j]
      af == CHOOSE x \in {le[i] + w.st[i].c : i \in tips} : \A j \in tips : x >= le[j] + w.st[j].c
      area == Sides(w) * Sum([i \in 1..P(w) |-> MulDiv(A(w, i), Sqrt(100000000 + 100 * w.st[i].d * w.st[i].d), 10000)], P(w))
      \* the panel a place on the span lies on, and the wing there
      at(y) == CHOOSE i \in 1..P(w) : Out(w, i) <= y + 3 /\ (i = P(w) \/ y < Out(w, i + 1) + 3) /\ \A j \in 1..(i - 1) : ~(y < Out(w, j + 1) + 3)
      strip(s) == LET i == at(s[1])  y == s[1] - Out(w, i) IN
                  <<le[i] + MulDiv(le[i + 1] - le[i], y, L(w, i)), w.st[i].c + MulDiv(w.st[i + 1].c - w.st[i].c, y, L(w, i)), Up(w, i) + MulDiv(y, w.st[i].d, 1000)>>
  IN UNION {LET want == strip(e.strips[k]) IN Is(e.strips[k][2], want[1], "strip-leading-edge") \cup Is(e.strips[k][3], want[2], "strip-chord") \cup Is(e.strips[k][4], want[3], "strip-height") : k \in 1..Len(e.strips)} \cup
     Is(e.front, fr, "mesh-front") \cup Is(e.aft, af, "mesh-aft") \cup Is(e.out, w.semi, "mesh-tip") \cup Is(e.up, Up(w, n), "mesh-height") \cup
     (IF Near(e.area, area, 10 + area \div 3000) THEN {} ELSE {"mesh-area"}) \cup Is(e.mirror, IF w.sym THEN 0 - w.semi ELSE 0, "mesh-mirror")
BodyBad(e) ==
  Is(e.cabin, Cabin(e.b), "cabin") \cup Is(e.nose, MulDiv(e.b.nose, e.b.width, 1000), "nose") \cup Is(e.tail, MulDiv(e.b.tail, e.b.width, 1000), "tail") \cup
  Is(e.total, Total(e.b), "body-length") \cup (IF Near(e.total, e.nose + e.cabin + e.tail, 4) THEN {} ELSE {"body-sum"}) \cup
  (IF e.seats = e.b.seats THEN {} ELSE {"seats"}) \cup
  Is(e.wet, MulDiv(MulDiv(e.cabin, 314159, 100000) + MulDiv(e.nose + e.tail, 235619, 100000), e.b.width, 10000), "body-skin")
\* a flap from a to b of a wing with straight edges: the area before it, its own, its chord
FlapBad(e) ==
  LET w == st.w  ca == ChordAt(w, MulDiv(e.a, w.semi, 10000))  cb == ChordAt(w, MulDiv(e.b, w.semi, 10000))
      area == Sides(w) * MulDiv(MulDiv(e.b - e.a, w.semi, 10000), ca + cb, 20000)
  IN Is(e.affected, area, "flap-affected") \cup Is(e.area, MulDiv(area, e.cf, 100), "flap-area") \cup
     Is(e.chord, MulDiv((2 * (ca + cb - MulDiv(ca, cb, ca + cb))) \div 3, e.cf, 100), "flap-chord")
PlaceBad(e) == IF \A k \in 1..Len(e.before) : \A x \in 1..3 : Near(e.after[k][x], MulDiv(e.before[k][x], e.k, 1000), 3) THEN {} ELSE {"origin"}
\* rotations: rows of three by three, 1e-4: T Tt is one, and each row of the batch is that of its own angles
RotBad(e) ==
  UNION {LET M == e.T[k] IN
    (IF \A i \in 1..3, j \in 1..3 : Near(Sum([m \in 1..3 |-> M[i][m] * M[j][m]], 3), IF i = j THEN 100000000 ELSE 0, 30000) THEN {} ELSE {"rotation"}) \cup
    (IF \A i \in 1..3, j \in 1..3 : Near(M[i][j], e.one[k][i][j], 1) /\ Near(e.inv[k][j][i], M[i][j], 1) THEN {} ELSE {"rotation-rows"}) \cup
    (IF \A i \in 1..3 : Near(e.v[k][i], Sum([m \in 1..3 |-> M[i][m] * e.u[k][m]], 3) \div 10000, 4) THEN {} ELSE {"rotation-product"}) \cup
    (IF \A i \in 1..3, j \in 1..3 : Near(e.P[k][i][j], Sum([m \in 1..3 |-> M[i][m] * e.Q[k][m][j]], 3) \div 10000, 3) THEN {} ELSE {"rotation-product"}) : k \in 1..Len(e.T)}
\* the air around it: coefficients 1e-6.  how: same, beta (the wind from the other side), alpha (upside down), area (reference area k times)
Sign(how, j) == IF how = "beta" /\ j > 3 THEN -1 ELSE IF how = "alpha" /\ j \in {1, 3, 5} THEN -1 ELSE 1
AirBad(e) ==
  (IF \A r \in 1..Len(e.c) : \A j \in 1..2 : Near(e.c[r][6 + j], e.c[r][j], 20 + Abs(e.c[r][j]) \div 5000) THEN {} ELSE {"sum-of-wings"}) \cup
  IF e.how = "first" THEN {}
  ELSE UNION {LET b == st.air[r][j] * Sign(e.how, j)  x == e.c[r][j] * (IF e.how = "area" THEN e.k ELSE 1)
              IN IF Near(x, b, 8 * e.k + Abs(b) \div 5000 + (IF j > 3 THEN Abs(st.air[r][1]) \div 20000 ELSE 0)) THEN {} ELSE {IF j = 1 THEN "lift" ELSE IF j = 2 THEN "drag" ELSE IF j = 3 THEN "pitch" ELSE "lateral"}
              : r \in 1..Len(e.c), j \in 1..6} \cup
       (IF e.level /\ \E r \in 1..Len(e.c) : \E j \in 4..6 : ~Near(e.c[r][j], 0, 8 + Abs(e.c[r][1]) \div 20000) THEN {"lateral"} ELSE {})
Clauses(e, dev) == CASE e.op = "shape" -> ShapeBad(e, dev) [] e.op = "panels" -> PanelsBad(e, dev) [] e.op = "mesh" -> MeshBad(e, dev) [] e.op = "surfaces" -> SurfBad(e)
                [] e.op = "chord" -> ChordBad(e) [] e.op = "flap" -> FlapBad(e) [] e.op = "body" -> BodyBad(e)
                [] e.op = "place" -> PlaceBad(e) [] e.op = "rotate" -> RotBad(e) [] e.op = "air" -> AirBad(e) [] OTHER -> {}
Step(e) == CASE e.op = "wing" -> [st EXCEPT !.w = e.w]
             [] e.op = "split" -> [st EXCEPT !.w = Split(@, e.i, e.e)]
             [] e.op = "drop" -> [st EXCEPT !.w = Drop(@, e.i)]
             [] e.op = "mirror" -> [st EXCEPT !.w = Mirror(@)]
             [] e.op = "stretch" -> [st EXCEPT !.w = Stretch(@, e.k)]
             [] e.op = "grow" -> [st EXCEPT !.w = Grow(@, e.k)]
             [] e.op = "air" -> IF e.how = "first" THEN [st EXCEPT !.air = e.c] ELSE st
             [] OTHER -> st
Fresh == [w |-> <<>>, air |-> <<>>]
Init == l = 1 /\ st = Fresh /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Fresh /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e, FALSE)
              known == bad # {} /\ e.op \in {"shape", "panels", "mesh"} /\ ~st.w.sym /\ Clauses(e, TRUE) = {}
          IN
          /\ st' = Step(e)
          /\ skip' = (bad # {} /\ ~known)
          /\ bad # {} => IF known THEN PrintT("DEVIATES" \o ToJson([line |-> l, clauses |-> {e.op \o ":one-sided-" \o e.by}]))
                         ELSE PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
