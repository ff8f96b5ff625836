------------------------------ MODULE SwarmTrace ------------------------------
EXTENDS Swarm, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip
Clauses(e) ==
  IF e.op = "eval" THEN (IF st.done THEN {"went-on"} ELSE {}) \cup (IF e.inb THEN {} ELSE {"outside-bounds"})
  ELSE LET some == Feasible(st) # {} IN
    (IF st.done THEN {} ELSE {"stopped-early"})
    \cup (IF some /\ ~(e.x \in Feasible(st)) THEN {"returned-infeasible"} ELSE {})
    \cup (IF some /\ ~(e.x \in Feasible(st) /\ st.seen[e.x].f = st.fb) THEN {"returned-worse"} ELSE {})
    \cup (IF e.f # st.fb THEN {"returned-value"} ELSE {})
    \cup (IF e.x = 0 THEN {"returned-unseen"} ELSE {})
Init == l = 1 /\ st = Start(1, 1, 0) /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Start(e.S, e.maxit, e.minfunc) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = (IF e.op = "eval" THEN Eval(st, e) ELSE st) /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> [b |-> st.b, fb |-> st.fb, done |-> st.done]]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
