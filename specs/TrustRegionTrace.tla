--------------------------- MODULE TrustRegionTrace ---------------------------
EXTENDS TrustRegion, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, p, sts, skip           \* sts: the states the search may be in
Probe(e, s) == \A i \in 1..Len(e.probes) : e.probes[i].f = Fc(p, s.x, e.probes[i].x)
CProbe(e, s) == \A i \in 1..Len(e.probes) : e.probes[i].g = Residuals(p, s.x, e.probes[i].x)
RProbe(e, s) == \A i \in 1..Len(e.rprobes) : e.rprobes[i].v = Viol(p, Gc(p, s.x, e.rprobes[i].x))
After(e, s) == Judge(p, s, IF e.ok THEN e.x1 ELSE e.x2, e.ok)
Bad(e, s) ==
  IF e.op = "iter" THEN
    (IF s.done THEN {"went-on"} ELSE {})
    \cup (IF e.x0 = s.x THEN {} ELSE {"centre"}) \cup (IF e.size = s.size THEN {} ELSE {"region-size"})
    \cup (IF e.lo = Low(p, s) /\ e.up = High(p, s) THEN {} ELSE {"region-bounds"})
    \cup (IF Probe(e, s) THEN {} ELSE {"corrected-objective"}) \cup (IF CProbe(e, s) THEN {} ELSE {"corrected-constraints"})
    \cup (IF e.ok \/ (e.rlo = Low(p, s) /\ e.rup = High(p, s)) THEN {} ELSE {"restoration-bounds"})
    \cup (IF RProbe(e, s) THEN {} ELSE {"restoration-objective"})
  ELSE (IF s.done THEN {} ELSE {"stopped-early"}) \cup (IF e.x = s.x THEN {} ELSE {"returned-point"})
    \cup (IF e.f = s.f THEN {} ELSE {"returned-value"}) \cup (IF e.msg = s.msg THEN {} ELSE {"message"})
    \cup (IF e.size = s.size THEN {} ELSE {"region-size"}) \cup (IF e.out THEN {} ELSE {"output-stream"})
Init == l = 1 /\ p = <<>> /\ sts = {} /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN p' = e.p /\ sts' = {Start(e.p)} /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<p, sts, skip>>
     ELSE LET good == {s \in sts : Bad(e, s) = {}} IN
          /\ UNCHANGED p /\ skip' = (good = {})
          /\ sts' = (IF e.op = "iter" THEN UNION {After(e, s) : s \in good} ELSE good)
          /\ good = {} => LET s == CHOOSE s \in sts : \A t \in sts : Cardinality(Bad(e, s)) <= Cardinality(Bad(e, t)) IN
                PrintT("REJECT" \o ToJson([line |-> l, clauses |-> Bad(e, s), expected |-> s]))
Spec == Init /\ [][Next]_<<l, p, sts, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
