----------------------------- MODULE DiffedTrace -----------------------------
EXTENDS Diffed, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip
Clauses(e) == LET r == CStep(st, e) IN
    (IF e.res = "ok" THEN {} ELSE {"raised"})
    \cup (IF SameContent(r.base, e.post.base) THEN {} ELSE {"base"})
    \cup (IF Len(r.cfgs) = Len(e.post.cfgs) /\ SameState([r EXCEPT !.base = e.post.base], e.post) THEN {}
          ELSE IF \A i \in 1..Len(r.cfgs) : SameContent(r.cfgs[i].cur, e.post.cfgs[i].cur)
               THEN {"stored-difference"} ELSE {"configuration"})
Init == l = 1 /\ st = Nil /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = e.post /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = e.post /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> CStep(st, e)]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
