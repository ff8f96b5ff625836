----------------------------- MODULE AeroTrace -----------------------------
EXTENDS Aero, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip     \* st: [K, v, s, model]
Close(a, b, t) == Near(a, b, t + Abs(b) \div 20000)
\* model: [pylons, esdu (else base drag), wings (compressibility by wing), vlm (induced and parasite build-up)]
LiftBad(e, j) == IF Close(e.whole[j].CL, Lift(st.K, st.v, st.s, e.cl[j]), 30) THEN {} ELSE {"lift"}
BuildBad(e, j) ==
  LET w == e.whole[j]  p == e.pts[j]  K == st.K  v == st.v  s == st.s  m == st.model
      par == Coef(Parasite(K, v, p, m.pylons), v.sref)
      ind == Induced(K, v, s, p, e.cl[j], e.cdi[j], w.CL)
      com == IF m.wings THEN Coef(Sum(e.cc[j], Len(e.cc[j])), v.sref) ELSE e.cc[j][1]
      mis == Coef(IF m.esdu THEN EsduD(Wet(K, v)) ELSE Bases(K, v), v.sref)
  IN (IF Close(w.parasite, par, 30) THEN {} ELSE {"parasite"}) \cup
     (IF \A i \in 1..Len(v.parts) : K[v.parts[i]].skip \/ Close(w.entries[i], Entry(K, v, v.parts[i], p), 20) THEN {} ELSE {"parasite-entries"}) \cup
     (IF Close(w.induced, ind, 300 + Abs(ind) \div 2000) THEN {} ELSE {"induced"}) \cup
     (IF ~w.osw_known \/ Abs(w.CL) < 5000 \/ Close(w.induced, MD(MD(Sq(w.CL) * 1000, 1000, K[Big(K, v)].ar), 3183, w.osw), 300 + Abs(ind) \div 100) THEN {} ELSE {"oswald"}) \cup
     (IF Near(w.induced, w.viscous + e.inv[j], 20 + Abs(w.induced) \div 20000) \/ s.span > 0 THEN {} ELSE {"induced-split"}) \cup
     (IF Close(w.compressible, com, 30) THEN {} ELSE {"compressible"}) \cup
     (IF Close(w.misc, mis, 60) THEN {} ELSE {"miscellaneous"}) \cup
     (IF Close(w.untrimmed, w.parasite + w.induced + w.compressible + w.misc, 8) THEN {} ELSE {"untrimmed"}) \cup
     (IF Close(w.trimmed, Trimmed(s, w.untrimmed), 8) THEN {} ELSE {"trim"}) \cup
     (IF Close(w.CD, Total(s, w.trimmed), 8) THEN {} ELSE {"total"})
\* each wing by itself
StallBad(e, j) ==
  LET w == e.whole[j]  W == Of(st.K, st.v, 1)
  IN (IF Close(w.CD, Sum([i \in 1..Len(W) |-> MD(e.cdi[j][i], st.v.S[W[i]], st.v.sref)], Len(W)) + 100 * st.s.inc, 60) THEN {} ELSE {"drag"})
EvalBad(e) == UNION {LiftBad(e, j) \cup (IF st.model.vlm THEN BuildBad(e, j) ELSE StallBad(e, j)) \cup
                     (IF e.whole[j].same THEN {} ELSE {"reported"}) : j \in 1..Len(e.pts)}
\* surrogates give back what they were trained on
FitBad(e) == UNION {IF Close(e.sur[i], e.direct[i], e.tol[i]) THEN {} ELSE {"surrogate"} : i \in 1..Len(e.sur)}
\* forces on the vehicle: q in Pa, forces in N, lift coefficient before (CL0) and after (CL) in 1e-5, drag 1e-5
ForceBad(e) ==
  UNION {LET CL == IF e.q[j] <= 0 THEN 0 ELSE Clip(st.s, e.CL0[j])  CD == IF e.q[j] <= 0 THEN 0 ELSE e.CD0[j] IN
     (IF Near(e.CL[j], CL, 3) THEN {} ELSE {"lift-limited"}) \cup
     (IF Near(e.CD[j], CD, 3) THEN {} ELSE {"drag-kept"}) \cup
     (IF Near(e.L[j], 0 - MD(CL, e.q[j], 100000) * st.v.sref, 3 * st.v.sref + Abs(e.L[j]) \div 500) THEN {} ELSE {"lift-force"}) \cup
     (IF Near(e.D[j], 0 - MD(CD, e.q[j], 100000) * st.v.sref, 3 * st.v.sref + Abs(e.D[j]) \div 500) THEN {} ELSE {"drag-force"}) : j \in 1..Len(e.q)} \cup
  (IF e.plane THEN {} ELSE {"force-axes"})
Clauses(e) == CASE e.op = "eval" -> EvalBad(e) [] e.op = "fit" -> FitBad(e) [] e.op = "forces" -> ForceBad(e)
                [] OTHER -> {}
Step(e) == CASE e.op = "world" -> [K |-> e.K, v |-> e.v, s |-> e.s, model |-> e.model]
             [] e.op = "add" -> [st EXCEPT !.v = Add(@, e.k)]
             [] e.op = "del" -> [st EXCEPT !.v = Del(@, e.k)]
             [] e.op = "area" -> [st EXCEPT !.v = Area(@, e.k, e.a)]
             [] e.op = "sref" -> [st EXCEPT !.v = Sref(@, e.a)]
             [] e.op = "set" -> [st EXCEPT !.s[e.f] = e.x]
             [] OTHER -> st
Init == l = 1 /\ st = <<>> /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = <<>> /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = Step(e)
          /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
