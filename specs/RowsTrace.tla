----------------------------- MODULE RowsTrace -----------------------------
EXTENDS Rows, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip                     \* st: the states of the segments
\* events (post: the states after, joined: nodes of the mission's joined state, vec / out: vectors)
NoSize(ns) == SeqSet(Map(ns, LAMBDA x : [x EXCEPT !.n = 0]))
Same(a, b) == SeqSet(a) = SeqSet(b)
Clauses(e) ==
  IF e.res # "ok" THEN {"raised"} ELSE
  CASE e.op = "expand" -> (IF Same(e.post[e.i], Expand(st[e.i], e.n, e.ov)) THEN {} ELSE {"expanded"})
                          \cup (IF \A k \in 1..Len(st) : k = e.i \/ Same(e.post[k], st[k]) THEN {} ELSE {"other-segments"})
    [] e.op = "ones" -> IF e.shape = <<Node(st[e.i], e.p).n, e.c>> THEN {} ELSE {"ones-row"}
    [] e.op = "set" -> {}
    [] e.op = "begin" -> (IF \A k \in 1..Len(st) : Same(e.post[k], IF e.fresh THEN Expand(st[k], e.ns[k], FALSE) ELSE st[k]) THEN {} ELSE {"expanded"})
                         \cup (IF e.chained THEN {} ELSE {"initials-chain"})
    [] e.op = "join" -> (IF NoSize(e.joined) = NoSize(Join(st)) THEN {} ELSE {"joined"})
                        \cup (IF \A k \in 1..Len(st) : Same(e.post[k], st[k]) THEN {} ELSE {"join-changed-segments"})
                        \cup (IF e.apart THEN {} ELSE {"join-shares-arrays"})
                        \cup (IF e.out = Pack(Join(st), "unknowns") THEN {} ELSE {"unknown-vector"})
    [] e.op = "iterate" -> LET w == Iterated(st, Join(st), e.vec) IN
                        (IF \A k \in 1..Len(st) : Same(e.post[k], w[k]) THEN {} ELSE {"handed-back"})
                        \cup (IF e.out = Pack(Join(w), "residuals") THEN {} ELSE {"residual-vector"})
                        \cup (IF NoSize(e.joined) = NoSize(Join(w)) THEN {} ELSE {"joined"})
    [] e.op = "solve" -> (IF e.start = Pack(Join(st), "unknowns") THEN {} ELSE {"solver-start"})
                        \cup (IF e.given = e.asked THEN {} ELSE {"solver-settings"})
                        \cup (IF \A k \in 1..Len(st) : Same(e.post[k], Iterated(st, Join(st), e.vec)[k]) THEN {} ELSE {"handed-back"})
                        \cup (IF e.flag = (e.ier = 1) THEN {} ELSE {"converged-flag"})
    [] OTHER -> {"unknown-event"}
Init == l = 1 /\ st = <<>> /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = e.post /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = (IF "post" \in DOMAIN e THEN e.post ELSE st) /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
