------------------------------ MODULE DiffedMC ------------------------------
EXTENDS Diffed, Json
CONSTANTS D, Gen, MaxCfg
VARIABLES st, hist
B0 == Node("D", <<<<"a", Leaf("1")>>, <<"n", Node("D", <<<<"c", Leaf("2")>>>>)>>>>)
E(op, i, p, key, val) == [op |-> op, i |-> i, p |-> p, key |-> key, val |-> val]
Init == st = [base |-> B0, cfgs |-> <<>>] /\ hist = <<>>
\* edits address leaves; scratch (unstored) edits address leaves which the parent defines
Ops(s) ==
       {E("new", i, <<>>, "", Nil) : i \in IF Len(s.cfgs) < MaxCfg THEN 0..Len(s.cfgs) ELSE {}}
  \cup {E("baseedit", 0, pk[1], pk[2], v) : pk \in {<<<<>>, "a">>, <<<<"n">>, "c">>, <<<<"n">>, "d">>}, v \in {Leaf("7")}}
  \cup {E("baseedit", 0, <<>>, "q", Node("D", <<<<"e", Leaf("5")>>>>))}
  \cup {E("edit", i, pk[1], pk[2], v) : i \in 1..Len(s.cfgs), pk \in {<<<<>>, "a">>, <<<<"n">>, "c">>, <<<<"n">>, "z">>}, v \in {Leaf("8"), Leaf("1")}}
  \cup {E("edit", i, <<"q">>, "e", Leaf("9")) : i \in {j \in 1..Len(s.cfgs) : NodePath(s.cfgs[j].cur, <<"q">>)}}
  \cup {E("scratch", i, <<>>, "a", Leaf("6")) : i \in 1..Len(s.cfgs)}
  \cup {E(o, i, <<>>, "", Nil) : o \in {"store", "pull", "finalize"}, i \in 1..Len(s.cfgs)}
  \cup {E(o, 0, <<>>, "", Nil) : o \in {"storeall", "pullall", "finalizeall"}}
Next == \E e \in Ops(st) : st' = CStep(st, e)
          /\ hist' = IF Gen THEN Append(hist, e @@ [post |-> CStep(st, e)]) ELSE hist
Spec == Init /\ [][Next]_<<st, hist>>
Bound == TLCGet("level") <= D
View == st

\* only an edit of the base changes the base; only its own operations or a child's pull change a configuration
BaseSafe == \A e \in Ops(st) : e.op # "baseedit" => CStep(st, e).base = st.base
Isolation == \A e \in Ops(st) : \A j \in 1..Len(st.cfgs) :
     (e.op \in {"edit", "scratch", "store", "baseedit", "new"} /\ ~(e.op # "new" /\ e.i = j)) =>
        CStep(st, e).cfgs[j] = st.cfgs[j]
\* after a pull: stored differences stand, everything else follows the parent
PullSound == \A i \in 1..Len(st.cfgs) :
   LET s == Pull(st, i) c == s.cfgs[i] pt == ParentTree(s, i) IN
   /\ \A p \in LeafPaths(c.dif) : HasPath(c.cur, p) /\ At(c.cur, p) = At(c.dif, p)
   /\ \A p \in LeafPaths(pt) : ~Overridden(c.dif, p) => HasPath(c.cur, p) /\ At(c.cur, p) = At(pt, p)
   /\ \A p \in LeafPaths(st.cfgs[i].cur) : HasPath(c.cur, p)
PullIdempotent == \A i \in 1..Len(st.cfgs) : SameState(Pull(Pull(st, i), i), Pull(st, i))
\* storing and pulling straight away changes nothing, when nothing of the base is missing from the configuration
StorePull == \A i \in 1..Len(st.cfgs) : (st.cfgs[i].par = 0 /\ \A x \in Content(st.base, <<>>) : HasPath(st.cfgs[i].cur, x[1])) =>
                SameContent(Pull(Store(st, i), i).cfgs[i].cur, st.cfgs[i].cur)
GenPrint == (Gen /\ Len(hist) = D) => PrintT("HIST" \o ToJson(hist))
GenBound == Len(hist) < D
=============================================================================
