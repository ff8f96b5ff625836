------------------------------ MODULE SolveTrace ------------------------------
EXTENDS Solve, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l
Clauses(e) ==
    (IF (e.x = <<>>) = (Good(e.p) = {}) THEN {} ELSE {"feasible-set"})
    \cup (IF e.x = <<>> \/ Good(e.p) = {} \/ e.x \in Best(e.p) THEN {} ELSE {"not-the-best-feasible"})
    \cup (IF {e.pts[i] : i \in 1..Len(e.pts)} = Points(e.p) THEN {} ELSE {"bounds"})
    \cup (IF {e.good[i] : i \in 1..Len(e.good)} = Good(e.p) THEN {} ELSE {"constraints"})
    \cup (IF e.ini = <<>> \/ \A i \in 1..Len(e.ini) : e.ini[i] * e.p.vars[i].sc = e.p.vars[i].ini * 16 THEN {} ELSE {"start"})
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN TRUE
           ELSE LET bad == Clauses(e)
                IN bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> Best(e.p)]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
