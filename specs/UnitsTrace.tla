----------------------------- MODULE UnitsTrace -----------------------------
EXTENDS Units, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip                          \* st: what each name holds, as the size of its unit
Val(e) == CASE e.op = "in" -> [i \in 1..Len(e.x) |-> In(st[e.v], Dec(e.x[i]))]
            [] e.op = "out" -> [i \in 1..Len(e.x) |-> Out(st[e.v], Dec(e.x[i]))]
            [] OTHER -> <<>>
Clauses(e) ==
  CASE e.op \in {"in", "out"} ->
         LET w == Val(e) IN
         (IF Len(e.got) = Len(w) /\ \A i \in 1..Len(w) : Same(Dec(e.got[i]), w[i]) THEN {} ELSE {"value"}) \cup
         (IF e.kept THEN {} ELSE {"argument"}) \cup (IF e.form THEN {} ELSE {"form"})
    [] e.op = "temp" ->
         (IF \A i \in 1..Len(e.x) : Abs(e.got[i] - (IF e.way = "in" THEN TIn(e.u, e.x[i]) ELSE TOut(e.u, e.x[i]))) <= 2 THEN {} ELSE {"temperature"}) \cup (IF e.kept THEN {} ELSE {"argument"})
    [] OTHER -> {}
Step(e) ==
  CASE e.op = "get" -> [st EXCEPT ![e.v] = Size(e.p)]
    [] e.op = "mul" -> [st EXCEPT ![e.v] = Mul(st[e.a], st[e.b])]
    [] e.op = "div" -> [st EXCEPT ![e.v] = Div(st[e.a], st[e.b])]
    [] e.op = "pow" -> [st EXCEPT ![e.v] = Pow(st[e.a], e.n)]
    [] e.op = "half" -> [st EXCEPT ![e.v] = LET r == Sqrt(Pow(st[e.a], IF e.n < 0 THEN -e.n ELSE e.n)) IN IF e.n < 0 THEN Div(One, r) ELSE r]
    [] e.op = "copy" -> [st EXCEPT ![e.v] = st[e.a]]
    [] OTHER -> st
Fresh == [v \in 1..4 |-> One]
Init == l = 1 /\ st = Fresh /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Fresh /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = Step(e) /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> Val(e)]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
