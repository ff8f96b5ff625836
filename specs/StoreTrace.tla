----------------------------- MODULE StoreTrace -----------------------------
EXTENDS Store, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip     \* st: v: values, f: files, x: XML elements, g: XML files
None == Node("no file", "", <<>>, <<>>, <<>>, <<>>)
Near(a, b, d) == a - b <= d /\ b - a <= d
RowsNear(a, b, d) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], d)
SumTo(q) == LET S[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE LET s == S[i - 1] IN s + q[i] IN S[Len(q)]
Clauses(e) ==
  CASE e.op = "look" -> IF Plain(e.got) = Plain(st.v[e.k]) THEN {} ELSE {"value"}
    [] e.op = "write" ->
         (IF e.ok = Writable(st.v[e.k]) THEN {} ELSE {"written"}) \cup (IF e.kept THEN {} ELSE {"source-changed"})
         \cup (IF ~ e.ok /\ ~ e.same THEN {"file-lost"} ELSE {})
    [] e.op = "load" -> IF st.f[e.f] = None THEN (IF e.ok THEN {"no-file"} ELSE {}) ELSE IF ~ e.ok THEN {"unreadable"} ELSE IF Plain(e.got) = Plain(Read(st.f[e.f])) THEN {} ELSE {"read-back"}
    [] e.op = "tree" ->
         (IF Plain(e.tree) = Plain(st.v[e.k]) THEN {} ELSE {"value"}) \cup
         (IF e.got = (IF e.way = "d3" THEN D3(Named(e.tree, e.root), e.tree) ELSE FreeMind(e.tree)) THEN {} ELSE {"tree-" \o e.way})
    [] e.op = "xlook" -> IF e.got = st.x[e.k] THEN {} ELSE {"xml-value"}
    [] e.op = "xdict" -> (IF e.got = FromDict(e.tree) THEN {} ELSE {"xml-from-dict"}) \cup (IF Plain(e.tree) = Plain(st.v[e.v]) THEN {} ELSE {"value"})
    [] e.op = "xwrite" -> IF e.kept /\ e.whole = st.x[e.k] THEN {} ELSE {"source-changed"}
    [] e.op = "xload" -> IF e.got = st.g[e.f] THEN {} ELSE {"xml-read-back"}
    [] e.op = "xfind" -> IF e.got = [i \in 1..Len(SelectSeq(st.x[e.k].e, LAMBDA c : c.g = e.tag)) |-> SelectSeq(st.x[e.k].e, LAMBDA c : c.g = e.tag)[i].x] THEN {} ELSE {"xml-find"}
    \* printed reports: numbers in thousandths
    [] e.op = "report" ->
         (IF Len(e.got) = Len(e.want) /\ \A i \in 1..Len(e.want) : e.got[i].name = e.want[i].name THEN {} ELSE {"report-lines"}) \cup
         (IF Len(e.got) = Len(e.want) /\ \A i \in 1..Len(e.want) : RowsNear(e.got[i].n, e.want[i].n, 501) THEN {} ELSE {"report-numbers"}) \cup (IF e.kept THEN {} ELSE {"source-changed"})
    [] e.op = "flight" ->
         LET n == Len(e.rows) IN
         (IF Len(e.got) = n /\ \A i \in 1..n : e.got[i].name = e.rows[i].name THEN {} ELSE {"flight-segments"}) \cup
         (IF Len(e.got) = n /\ \A i \in 1..n : \A j \in 1..Len(e.prec) : Near(e.got[i].n[j], e.rows[i].n[j], e.prec[j]) THEN {} ELSE {"flight-numbers"}) \cup
         (IF Near(e.total.range, SumTo([i \in 1..n |-> e.rows[i].dist]), 600) THEN {} ELSE {"flight-range"}) \cup
         (IF LET m == (e.t1 - e.t0) \div 60 IN e.total.h * 60 + e.total.m = m /\ e.total.m < 60 THEN {} ELSE {"flight-time"}) \cup
         (IF ~ e.add THEN (IF Near(e.total.main, e.m0 - e.m1, 2) THEN {} ELSE {"flight-fuel"})
          ELSE LET mf == SumTo([i \in 1..n |-> e.rows[i].main])  ma == SumTo([i \in 1..n |-> e.rows[i].extra]) IN
               (IF Near(e.total.main, mf, 20) THEN {} ELSE {"flight-main-fuel"}) \cup (IF Near(e.total.extra, ma, 20) /\ Near(e.total.fuel, mf + ma, 20) THEN {} ELSE {"flight-all-fuel"})) \cup
         (IF e.kept THEN {} ELSE {"source-changed"})
    \* a surface as points and cells: the corners of every panel, in order, and every point in use
    [] e.op = "mesh" ->
         (IF e.points = Len(e.at) /\ e.cells = Len(e.cell) /\ e.types = e.cells /\ e.size = SumTo([i \in 1..Len(e.cell) |-> 1 + Len(e.cell[i])]) THEN {} ELSE {"mesh-counts"}) \cup
         (IF \A i \in 1..Len(e.cell) : \A j \in 1..Len(e.cell[i]) : e.cell[i][j] \in 0..(Len(e.at) - 1) THEN {} ELSE {"mesh-index"}) \cup
         (IF UNION {{e.cell[i][j] : j \in 1..Len(e.cell[i])} : i \in 1..Len(e.cell)} = 0..(Len(e.at) - 1) THEN {} ELSE {"mesh-unused"}) \cup
         (IF Len(e.cell) = Len(e.want) /\ \A i \in 1..Len(e.want) : \A j \in 1..4 : e.cell[i][j] \in 0..(Len(e.at) - 1) /\ RowsNear(e.at[e.cell[i][j] + 1], e.want[i][j], 1) THEN {} ELSE {"mesh-corners"}) \cup
         (IF \A i \in 1..Len(e.data) : e.data[i] = e.cells THEN {} ELSE {"mesh-data"}) \cup (IF e.kept THEN {} ELSE {"source-changed"})
    [] OTHER -> {}
Step(e) ==
  CASE e.op = "make" -> [st EXCEPT !.v[e.k] = Plain(e.x)]
    [] e.op = "edit" -> [st EXCEPT !.v[e.k] = SetAt(@, e.p, Plain(e.x))]
    [] e.op = "drop" -> [st EXCEPT !.v[e.k] = DropAt(@, e.p)]
    [] e.op = "write" /\ e.ok -> [st EXCEPT !.f[e.f] = st.v[e.k]]
    [] e.op = "load" /\ e.ok -> [st EXCEPT !.v[e.k] = Plain(e.got)]
    [] e.op \in {"xmake", "xdict"} -> [st EXCEPT !.x[e.k] = IF e.op = "xmake" THEN e.x ELSE e.bare]
    [] e.op = "xedit" -> [st EXCEPT !.x[e.k] = XSet(@, e.p, e.x)]
    [] e.op = "xwrite" -> [st EXCEPT !.g[e.f] = e.bare]
    [] e.op = "xload" -> [st EXCEPT !.x[e.k] = e.got]
    [] OTHER -> st
Fresh == [v |-> [i \in 1..3 |-> None], f |-> [i \in 1..2 |-> None], x |-> [i \in 1..2 |-> None], g |-> [i \in 1..2 |-> None]]
Init == l = 1 /\ st = Fresh /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Fresh /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = (IF bad = {} THEN Step(e) ELSE st) /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> <<>>]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
