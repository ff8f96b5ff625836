--------------------------- MODULE DataTreeTrace ---------------------------
(* Conformance of recorded container histories with DataTree.                 *)
EXTENDS DataTree, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, skip
Clauses(e) ==
  LET r == Step(st, e) IN
    (IF ~ (Renames(st, e) => GoodName(At(st, e.p), e)) THEN {"append-distinct-name"} ELSE {})
    \cup (IF r.res = e.res THEN {} ELSE {"outcome"})
    \cup (IF r.out = e.out THEN {} ELSE {"returned-value"})
    \cup (IF r.st = e.post THEN {} ELSE IF SameContent(r.st, e.post) THEN {"order"} ELSE {"content"})
    \cup (IF e.views THEN {} ELSE {"views-agree"})
    \cup (IF e.argsame THEN {} ELSE {"argument-unchanged"})
Init == l = 1 /\ st = Nil /\ skip = FALSE
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = e.post /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE LET bad == Clauses(e) IN
          /\ st' = e.post
          /\ skip' = (bad # {})
          /\ bad # {} => PrintT("REJECT" \o ToJson([line |-> l, clauses |-> bad, expected |-> Step(st, e)]))
Spec == Init /\ [][Next]_<<l, st, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
