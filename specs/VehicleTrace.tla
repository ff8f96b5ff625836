----------------------------- MODULE VehicleTrace -----------------------------
EXTENDS Vehicle, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip
Home0(e) == IF e.op = "append" THEN (IF e.fam \in DOMAIN Home THEN At(st[e.i], <<Home[e.fam]>>) ELSE <<>>) ELSE At(st[e.i], e.p)
Clauses(e) == LET r == VStep(st, e) IN
    (IF r.ok = e.ok THEN {} ELSE {"outcome"})
    \cup (IF e.op \in {"append", "place"} /\ r.ok /\ e.ok /\ ~NameOk(Home0(e), e) THEN {"name"} ELSE {})
    \cup (IF e.tag = e.name THEN {} ELSE {"tag"})
    \cup (IF r.w = e.post THEN {} ELSE {"structure"})
    \cup (IF e.shared THEN {"shared-storage"} ELSE {})
    \cup (IF e.op = "cg" THEN (IF CgOk(st[e.i], e.out) /\ e.stored = e.out THEN {} ELSE {"centre-of-gravity"})
          ELSE IF r.out = e.out THEN {} ELSE {"sum"})
Init == l = 1 /\ st = <<>> /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = e.post /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = e.post /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> VStep(st, e)]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
