------------------------------ MODULE AirTrace ------------------------------
EXTENDS Air, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip                          \* st: the atmospheres
Is(x, w, n) == IF Close(Dec(x), w) THEN {} ELSE {n}
\* one row: what was asked for and what came back
Const(A) == A.kind = "const"
PConst(A, h, t) == Mul(Mul(Pb[2], A.p0), Exp(Neg(Div(Mul(Div(Mul(A.g, G0), R), h), t))))
\* known (known_findings.txt): the pressure of air of one temperature starts anew from standard air at every layer
PSteps(A, h, t) == LET i == Layer(h) IN Mul(Mul(Pb[i], A.p0), Exp(Neg(Div(Mul(Div(Mul(A.g, G0), R), Sub(h, Hb[i])), t))))
RowBad(A, r, v, steps) ==
  LET h == Geo(Dec(r.z))
      t == IF Const(A) THEN Dec(r.dT) ELSE Add(TAt(A, h), Dec(r.dT))
      p == IF Const(A) THEN (IF steps THEN PSteps(A, h, t) ELSE PConst(A, h, t)) ELSE PAt(A, h)
      T == Dec(r.T)  rho == Dec(r.rho)  mu == Dec(r.mu)
  IN Is(r.T, t, "temperature") \cup Is(r.p, p, "pressure") \cup Is(r.p, Mul(rho, Mul(R, T)), "density") \cup
     (IF Close(Mul(Dec(r.a), Dec(r.a)), A2(T, v)) THEN {} ELSE {"speed-of-sound"}) \cup
     (IF Close(Mul(Mul(mu, Suth(T)), Mul(mu, Suth(T))), Mu2(T)) THEN {} ELSE {"viscosity"}) \cup
     Is(r.mu, Mul(Dec(r.nu), rho), "kinematic-viscosity") \cup Is(r.K, K(T), "conductivity") \cup
     (IF Close(Mul(Dec(r.Pr), Dec(r.K)), Mul(mu, Cp)) THEN {} ELSE {"prandtl-number"})
\* a body moving through it
FlowBad(r) == LET V == Dec(r.V)  rho == Dec(r.rho) IN
  Is(r.q, Q(rho, V), "dynamic-pressure") \cup (IF Close(Mul(Dec(r.M), Dec(r.a)), V) THEN {} ELSE {"mach-number"}) \cup
  (IF Close(Mul(Dec(r.Re), Dec(r.mu)), Mul(rho, V)) THEN {} ELSE {"reynolds-number"})
GravBad(r) == LET x == Div(Re, Add(Re, Dec(r.z))) IN Is(r.g, Mul(G0, Mul(x, x)), "gravity")
Bad(e, steps) ==
  CASE e.op \in {"air", "segment"} ->
        UNION {RowBad(st[e.k], e.rows[i], e.v, steps) : i \in 1..Len(e.rows)} \cup (IF e.kept THEN {} ELSE {"argument"}) \cup (IF e.shape THEN {} ELSE {"rows"}) \cup
        (IF e.op = "segment" THEN UNION {FlowBad(e.rows[i]) : i \in 1..Len(e.rows)} ELSE {})
    [] e.op = "gravity" -> UNION {GravBad(e.rows[i]) : i \in 1..Len(e.rows)}
    [] OTHER -> {}
Std(kind) == [kind |-> kind, t0 |-> Zero, p0 |-> N(1, 0), g |-> N(1, 0)]
Step(e) ==
  CASE e.op = "new" -> [st EXCEPT ![e.k] = Std(e.kind)]
    [] e.op = "copy" -> [st EXCEPT ![e.k] = st[e.from]]
    [] e.op = "edit" -> [st EXCEPT ![e.k] = [@ EXCEPT ![e.f] = IF e.f = "t0" THEN Add(@, Dec(e.x)) ELSE Mul(@, Dec(e.x))]]
    [] OTHER -> st
Fresh == [k \in 1..2 |-> Std("us")]
Init == l = 1 /\ st = Fresh /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Fresh /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Bad(e, FALSE)
              known == bad = {"pressure"} /\ Const(st[e.k]) /\ Bad(e, TRUE) = {}
          IN
          /\ st' = Step(e) /\ skip' = (bad # {} /\ ~known)
          /\ bad # {} => IF known THEN PrintT("DEVIATES" \o ToJson([line |-> l, clauses |-> {"air:constant-temperature-steps"}]))
                         ELSE PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
