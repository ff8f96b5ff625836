-------------------------- MODULE PropulsionTrace --------------------------
EXTENDS Propulsion, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip     \* st: [w: world, nets]; world: [U, thr (percent), full, lin, flux]
Tol(v) == 12 + Abs(v) \div 50000
Close(a, b) == Near(a, b, Tol(b))
Names == <<"thrust", "thrust-z", "mass-rate", "power", "additional-fuel", "shaft-power">>
\* one engine's thrust is proportional to the throttle, and nothing burns below zero throttle
UnitBad(w) ==
  \* an engine deck gives the numbers of its table, nothing below zero throttle
  (IF w.tk = 0 \/ \A p \in 1..Len(w.thr) : LET u == w.U[w.tk][1][p] IN
      IF w.thr[p] > 0 THEN Near(u[1], w.table[p][1], 1) /\ Near(u[3], w.table[p][2], 1) ELSE u[1] = 0 /\ u[3] = 0 THEN {} ELSE {"deck-table"}) \cup
  UNION {UNION {UNION {
    (IF w.thr[p] >= 0 => Near(w.U[k][s][p][1], ((w.U[k][s][w.full[p]][1] \div 100) * w.thr[p]), 120 + Abs(w.U[k][s][p][1]) \div 20000) THEN {} ELSE {"throttle"}) \cup
    (IF w.thr[p] > 0 \/ w.U[k][s][p][3] = 0 THEN {} ELSE {"idle-burns"})
    : p \in 1..Len(w.thr)} : s \in 1..Len(w.U[k])} : k \in {k \in 1..Len(w.U) : w.lin[k]}}
\* a battery driven ducted fan at zero throttle: its controller divides nothing by nothing (a finding, named)
Idle(e, j, q) == e.bdf /\ q = 4 /\ st.w.thr[e.pts[j]] = 0 /\ e.got[j][q] = 2000000000
Named(e) == IF e.op = "eval" /\ \E j \in 1..Len(e.pts) : Idle(e, j, 4) THEN {"eval:battery-ducted-fan-idle-draw"} ELSE {}
EvalBad(e) ==
  LET net == st.nets[e.i] IN
  (IF e.kept THEN {} ELSE {"state-kept"}) \cup
  UNION {UNION {IF Idle(e, j, q) \/ Close(e.got[j][q], Net(st.w.U, st.w.flux, net, e.pts[j], q)) THEN {} ELSE {Names[q]} : q \in {e.qs[x] : x \in 1..Len(e.qs)}} : j \in 1..Len(e.pts)}
OutBad(e) ==
  LET g == st.nets[e.i].groups[1] IN
  (IF e.kept THEN {} ELSE {"throttle-restored"}) \cup
  UNION {UNION {IF Close(e.got[j][q], Out(st.w.U, st.w.full, g, e.pts[j], q)) THEN {} ELSE {"out-" \o Names[q]} : q \in {1, 3}} : j \in 1..Len(e.pts)}
SizeBad(e) ==
  LET net == Size(st.nets[e.i], e.tot)  g == net.groups[1] IN
  (IF Near(e.design, 1000 * e.tot, 20 + e.tot \div 10) THEN {} ELSE {"design-thrust"}) \cup
  (IF e.rest < 0 \/ Near(e.rest, e.sls, 20 + Abs(e.sls) \div 20000) THEN {} ELSE {"static-thrust"})
AllBad(e) ==
  LET nets == [i \in 1..Len(e.is) |-> st.nets[e.is[i]]]
      add == \E i \in 1..Len(nets) : \E k \in 1..Len(nets[i].groups) : st.w.add[nets[i].groups[k].kinds[1]]
  IN (IF e.split = add THEN {} ELSE {"fuel-split"}) \cup
  UNION {(UNION {IF Close(e.got[j][q], All(st.w.U, st.w.flux, nets, e.pts[j], q)) THEN {} ELSE {"all-" \o Names[q]} : q \in {1, 2, 3}}) \cup
         (IF add THEN (IF Close(e.got[j][5], All(st.w.U, st.w.flux, nets, e.pts[j], 5)) THEN {} ELSE {"all-additional-fuel"}) \cup
                      (IF Close(e.got[j][4], All(st.w.U, st.w.flux, nets, e.pts[j], 3) - All(st.w.U, st.w.flux, nets, e.pts[j], 5)) THEN {} ELSE {"all-fuel"})
          ELSE {}) : j \in 1..Len(e.pts)}
\* a leg at one state for T seconds loses what is burned: [m0, mf0, ma0] at the first point, mass at the last, all scaled as the rates are
BurnBad(e) ==
  LET nets == [i \in 1..Len(e.is) |-> st.nets[e.is[i]]]
      add == \E i \in 1..Len(nets) : \E k \in 1..Len(nets[i].groups) : st.w.add[nets[i].groups[k].kinds[1]]
      r == All(st.w.U, st.w.flux, nets, e.p, 3)  a == All(st.w.U, st.w.flux, nets, e.p, 5)
      N(x, y) == Near(x, y, 40 + Abs(y) \div 20000)
  IN UNION {
    (IF N(e.lost[k], r * e.t[k]) THEN {} ELSE {"mass-lost"}) \cup
    (IF ~add \/ (N(e.fuel[k], (r - a) * e.t[k]) /\ N(e.more[k], a * e.t[k])) THEN {} ELSE {"fuel-lost"}) : k \in 1..Len(e.t)} \cup
    (IF e.weight THEN {} ELSE {"weight"}) \cup
    (IF Close(e.thrust[1], All(st.w.U, st.w.flux, nets, e.p, 1)) /\ Close(e.thrust[2], All(st.w.U, st.w.flux, nets, e.p, 2)) THEN {} ELSE {"thrust-handed-on"})
Clauses(e) == CASE e.op = "eval" -> EvalBad(e) [] e.op = "out" -> OutBad(e) [] e.op = "size" -> SizeBad(e) [] e.op = "all" -> AllBad(e)
                [] e.op = "burn" -> BurnBad(e) [] e.op = "units" -> UnitBad(e.w) [] OTHER -> {}
Step(e) == CASE e.op = "units" -> [st EXCEPT !.w = e.w]
             [] e.op = "net" -> [st EXCEPT !.nets = Append(@, e.net)]
             [] e.op = "n" -> [st EXCEPT !.nets[e.i] = SetN(@, e.k, e.n)]
             [] e.op = "same" -> [st EXCEPT !.nets[e.i] = SetSame(@, e.k, e.b)]
             [] e.op = "swap" -> [st EXCEPT !.nets[e.i] = Swap(@, e.k, e.j, e.kind)]
             [] e.op = "load" -> [st EXCEPT !.nets[e.i].load = e.load]
             [] e.op = "size" -> [st EXCEPT !.nets[e.i] = Size(@, e.tot)]
             [] OTHER -> st
Init == l = 1 /\ st = [w |-> <<>>, nets |-> <<>>] /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = [w |-> <<>>, nets |-> <<>>] /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = Step(e)
          /\ skip' = (bad # {})
          /\ Named(e) # {} => PrintT("DEVIATES" \o ToJson([line |-> l, clauses |-> Named(e)]))
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
