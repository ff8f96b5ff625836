--------------------------- MODULE PackArrayTrace ---------------------------
EXTENDS PackArray, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip
\* events: pack (v), packa (a: columns), unpack (m: vector, warned), unpacka (m: columns)
Step(s, e) ==
  CASE e.op = "pack"    -> [st |-> s, out |-> PackV(s), warn |-> FALSE]
    [] e.op = "packa"   -> [st |-> s, out |-> PackA(s), warn |-> FALSE]
    [] e.op = "unpack"  -> LET u == UnpackV(s, e.m) IN [st |-> u[1], out |-> <<>>, warn |-> u[2] # <<>>]
    [] e.op = "unpacka" -> LET u == UnpackA(s, e.m) IN [st |-> u[1], out |-> <<>>, warn |-> u[2] # <<>>]
    [] e.op = "set"     -> [st |-> e.post, out |-> <<>>, warn |-> FALSE]
Clauses(e) == LET r == Step(st, e) IN
    (IF e.res = "ok" THEN {} ELSE {"raised"})
    \cup (IF r.out = e.out THEN {} ELSE {"packed-values"})
    \cup (IF r.st = e.post THEN {} ELSE IF Shape(r.st) = Shape(e.post) THEN {"unpacked-values"} ELSE {"shape-or-other-entries"})
    \cup (IF r.warn = e.warn THEN {} ELSE {"size-warning"})
    \cup (IF e.held THEN {} ELSE {"entries-replaced"})     \* arrays and containers held elsewhere are the ones written to
    \cup (IF e.inputsame THEN {} ELSE {"input-vector-unchanged"})
Init == l = 1 /\ st = [k |-> "X"] /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = e.post /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = e.post /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> Step(st, e)]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
