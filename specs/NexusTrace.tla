------------------------------ MODULE NexusTrace ------------------------------
EXTENDS Nexus, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip
Vis(s) == [s EXCEPT !.key = <<>>]           \* the cache key is the specification's own
Clauses(e) == LET r == NStep(st, e) IN
    (IF r.ok = e.ok THEN {} ELSE {"outcome"})
    \cup (IF r.st.cfg = e.post.cfg /\ r.st.sum = e.post.sum THEN {} ELSE {"variables"})
    \cup (IF r.st.inp = e.post.inp THEN {} ELSE {"input-table"})
    \cup (IF r.st.res = e.post.res THEN {} ELSE {"results"})
    \cup (IF (IF st.force THEN (e.post.cnt > st.cnt) = (r.st.cnt > st.cnt) ELSE r.st.cnt = e.post.cnt) THEN {} ELSE {"evaluations"})
    \cup (IF <<r.st.obj, r.st.con, r.st.al, r.st.fid, r.st.force, r.st.hard>> = <<e.post.obj, e.post.con, e.post.al, e.post.fid, e.post.force, e.post.hard>> THEN {} ELSE {"problem"})
    \cup (IF ~(r.ok /\ e.ok) \/ r.out = e.out THEN {} ELSE {"returned"})
Init == l = 1 /\ st = <<>> /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = e.post /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) r == NStep(st, e) IN
          /\ st' = [e.post EXCEPT !.key = r.st.key] /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> r]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
