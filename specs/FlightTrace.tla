---------------------------- MODULE FlightTrace ----------------------------
EXTENDS Flight, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip                     \* st: [segs, last, m0, md, la]
Pre(e, i) == IF i = 1 THEN [First EXCEPT !.lat = 10000 * st.la] ELSE End(e.res[i - 1].pts)
\* The one known deviation: segments at a dynamic pressure take the density at the altitude the segment
\* was last flown at (0 when it has not been flown) - listed in known_findings.txt; anything else is rejected.
OldAlt(i, k) == IF i <= Len(st.last) /\ k <= Len(st.last[i].pts) THEN st.last[i].pts[k].alt ELSE 0
Deviates(e, i) == LET s == st.segs[i] IN
  /\ s.kind \in {"qR", "qC", "qW"}
  /\ \A k \in 1..Len(e.res[i].pts) : Sane(e.res[i].pts[k])
  /\ \E k \in 1..Len(e.res[i].pts) : ~Near(e.res[i].pts[k].V, Speed(s, e.res[i].pts[k].alt, e.res[i].pts[k].f, 0), 3)
  /\ \A k \in 1..Len(e.res[i].pts) : Near(e.res[i].pts[k].V, Dense(s.v, OldAlt(i, k), s.dT), 3)
\* A solver started from an earlier flight's solution may fail to improve on it: then it must say so.
\* So may one that starts from the default guess, where the altitudes or speeds themselves are unknowns.
Unsolved(e, i) == ~e.res[i].conv /\ (i <= Len(st.last) \/ st.segs[i].kind \in {"thC", "thR", "MA", "qA"})
Excused(e, i) == (IF Deviates(e, i) THEN {"speed-law"} ELSE {}) \cup
  (IF ~Unsolved(e, i) THEN {} ELSE IF st.segs[i].kind \in {"thC", "thR", "MA", "qA", "piC", "to", "la"}
   THEN {"force-balance", "speed-law", "end-speeds", "angle", "time-points", "range-rate", "backwards", "duration", "altitude", "end-altitude"} ELSE {"force-balance"})
Flown(e) == IF e.op = "solve" THEN Put(st.segs, e.i, "d", e.d) ELSE st.segs       \* a solved distance counts as an input
FlyBad(e) ==
  IF Len(e.res) # Len(st.segs) THEN {"segments"}
  ELSE UNION {LET b == (Bad(Flown(e)[i], Pre(e, i), e.res[i].pts, i = 1, st.m0, st.md, st.la) \ Excused(e, i))
              IN {c \o ":" \o st.segs[i].kind : c \in b} : i \in 1..Len(st.segs)}
FlyDev(e) == IF Len(e.res) # Len(st.segs) THEN {} ELSE {"density-altitude:" \o st.segs[i].kind : i \in {j \in 1..Len(st.segs) : Deviates(e, j)}}
\* a mission solved as one: its target (landing mass, or the time at which the charge is reached) is met
SolveBad(e) == FlyBad(e) \cup
  (IF Len(e.res) # Len(st.segs) \/ e.end = 0 THEN {} ELSE LET z == End(e.res[Len(e.res)].pts) IN
     (IF e.tw = 0 \/ Near(z.m, 100 * e.tw, 3) THEN {} ELSE {"target-mass"}) \cup (IF Near(z.t, e.end, 3) THEN {} ELSE {"target-time"}))
  \cup (IF \A i \in 1..Len(e.res) : e.res[i].conv THEN {} ELSE {"converged"})
Apply(e) == CASE e.op = "add" -> [st EXCEPT !.segs = Append(@, e.seg)]
              [] e.op = "edit" -> [st EXCEPT !.segs = Put(@, e.i, e.key, e.val)]
              [] e.op = "mass" -> [st EXCEPT !.m0 = e.val]
              [] e.op = "fly" -> [st EXCEPT !.last = e.res]
              [] OTHER -> st
Init == l = 1 /\ st = <<>> /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = [segs |-> <<>>, last |-> <<>>, m0 |-> e.m0, md |-> e.md, la |-> e.la] /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == CASE e.op = "fly" -> FlyBad(e) [] e.op = "solve" -> SolveBad(e) [] OTHER -> {} IN
          /\ st' = Apply(e) /\ skip' = (bad # {})
          /\ e.op = "fly" /\ FlyDev(e) # {} => PrintT("DEVIATES" \o ToJson([line |-> l, clauses |-> FlyDev(e)]))
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> st]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
