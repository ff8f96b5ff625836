---------------------------- MODULE ProcTreeTrace ----------------------------
EXTENDS ProcTree, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip
Clauses(e) == LET r == PStep(st, e) IN
    (IF r.ok = e.ok THEN {} ELSE {"outcome"})
    \cup (IF r.log = e.log THEN {} ELSE {"steps-run"})
    \cup (IF r.res = e.res THEN {} ELSE {"results"})
    \cup (IF r.st = e.post THEN {} ELSE {"structure"})
Init == l = 1 /\ st = Nil /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = e.post /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = e.post /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> PStep(st, e)]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
