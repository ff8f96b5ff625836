-------------------------------- MODULE Diffed --------------------------------
(* C04. Configurations as a base plus stored differences.                        *)
(* State: base tree, and for each configuration its current tree, its stored      *)
(* difference and its parent (0 = the base, j = an earlier configuration).        *)
EXTENDS DataTree

\* what is different in a with respect to b (b may lack entries)
RECURSIVE Dropped(_, _, _)
RECURSIVE Diff(_, _, _)
Diff(a, b, i) ==      \* over the entries of a
  IF i > Len(a.kv) THEN Dropped(a, b, 1)
  ELSE LET k == a.kv[i][1] va == a.kv[i][2] rest == Diff(a, b, i + 1) IN
       IF Has(b, k)
       THEN LET vb == Get(b, k) IN
            IF IsNode(va) /\ IsNode(vb)
            THEN LET d == Diff(va, vb, 1) IN
                 IF d = <<>> THEN rest ELSE <<<<k, Node(va.k, d)>>>> \o rest
            ELSE IF va = vb THEN rest ELSE <<<<k, va>>>> \o rest
       ELSE IF va = Leaf("None") THEN rest ELSE <<<<k, va>>>> \o rest
\* an entry b has and a lacks is recorded as None: a has dropped it
Dropped(a, b, i) ==
  IF i > Len(b.kv) THEN <<>>
  ELSE LET k == b.kv[i][1] IN
       (IF Has(a, k) \/ b.kv[i][2] = Leaf("None") THEN <<>> ELSE <<<<k, Leaf("None")>>>>) \o Dropped(a, b, i + 1)
DiffTree(a, b) == Node("D", Diff(a, b, 1))

ParentTree(st, i) == IF st.cfgs[i].par = 0 THEN st.base ELSE st.cfgs[st.cfgs[i].par].cur
RECURSIVE Pull(_, _)
Pull(st, i) ==
  LET s1 == IF st.cfgs[i].par = 0 THEN st ELSE Pull(st, st.cfgs[i].par)
      c  == s1.cfgs[i] IN
  [s1 EXCEPT !.cfgs[i].cur = Upd(Upd(c.cur, ParentTree(s1, i), 1), c.dif, 1)]
Store(st, i) == [st EXCEPT !.cfgs[i].dif = DiffTree(st.cfgs[i].cur, ParentTree(st, i))]
RECURSIVE PullAll(_, _)
PullAll(st, i) == IF i > Len(st.cfgs) THEN st ELSE PullAll(Pull(st, i), i + 1)
RECURSIVE StoreAll(_, _)
StoreAll(st, i) == IF i > Len(st.cfgs) THEN st ELSE StoreAll(Store(st, i), i + 1)
PutLeaf(t, p, k, v) == PutAt(t, p, Put(At(t, p), k, v))

CStep(st, e) ==
  CASE e.op = "new"      -> [st EXCEPT !.cfgs = Append(@, [cur |-> IF e.i = 0 THEN st.base ELSE st.cfgs[e.i].cur,
                                                           dif |-> Node("D", <<>>), par |-> e.i])]
    [] e.op = "baseedit" -> [st EXCEPT !.base = PutLeaf(@, e.p, e.key, e.val)]
    [] e.op = "edit"     -> Store([st EXCEPT !.cfgs[e.i].cur = PutLeaf(@, e.p, e.key, e.val)], e.i)
    [] e.op = "scratch"  -> [st EXCEPT !.cfgs[e.i].cur = PutLeaf(@, e.p, e.key, e.val)]
    [] e.op = "store"    -> Store(st, e.i)
    [] e.op \in {"pull", "finalize"} -> Pull(st, e.i)
    [] e.op = "storeall" -> StoreAll(st, 1)
    [] e.op \in {"pullall", "finalizeall"} -> PullAll(st, 1)

SameState(a, b) ==
  /\ SameContent(a.base, b.base) /\ Len(a.cfgs) = Len(b.cfgs)
  /\ \A i \in 1..Len(a.cfgs) : SameContent(a.cfgs[i].cur, b.cfgs[i].cur)
                               /\ Content(a.cfgs[i].dif, <<>>) \ {<<<<>>, a.cfgs[i].dif.k, "">>}
                                = Content(b.cfgs[i].dif, <<>>) \ {<<<<>>, b.cfgs[i].dif.k, "">>}

LeafPaths(t) == {x[1] : x \in {y \in Content(t, <<>>) : y[2] \in {"L", "A"}}}
Overridden(d, p) == \E n \in 1..Len(p) : HasPath(d, SubSeq(p, 1, n)) /\ ~IsNode(At(d, SubSeq(p, 1, n)))
=============================================================================
