----------------------------- MODULE ProcTreeMC -----------------------------
EXTENDS ProcTree, Json
CONSTANTS D, Gen
VARIABLES st, hist
F == Mem("M", "f", <<"call">>, "none")
G == Mem("M", "g", <<"compile", "evaluate", "finalize">>, "Noise")
H == Mem("M", "h", <<"initialize", "evaluate">>, "Aerodynamics")
Q == Mem("M", "q", <<"call", "none">>, "none")
X == Mem("X", "x", <<"call">>, "none")
E(op, p, key, val, ph, arg) == [op |-> op, p |-> p, key |-> key, val |-> val, phase |-> ph, arg |-> arg]
Paths(s) == {<<>>} \cup {<<k>> : k \in {j \in KeySet(s) : Cont(Get(s, j))}}
Vals(n) == IF n.k = "P" THEN {F, G, Q, X, Box("P", <<>>), Box("P", <<<<"b", F>>, <<"a", G>>>>)}
           ELSE {G, H, FreshV, Box("C", <<<<"b", H>>, <<"a", G>>>>)}
Ops(s) == UNION {
   LET n == At(s, p) IN
     (IF n.k # "V" THEN {E("set", p, k, v, "", "") : k \in {"a", "b"}, v \in Vals(n)} ELSE {})
     \cup (IF n.k # "V" THEN {E("del", p, k, Empty, "", "") : k \in KeySet(n)} ELSE {})
     \cup (IF n.k = "V" THEN {E("append", p, "", v, "", "") : v \in {G, H, F}} ELSE {})
     \cup {E("run", p, "", Empty, ph, "1") : ph \in IF n.k = "P" THEN {"evaluate"} ELSE Phases}
   : p \in Paths(s)}
Init == st \in {Box("P", <<>>), Box("C", <<>>)} /\ hist = <<>>
Next == \E e \in Ops(st) : LET r == PStep(st, e) IN st' = r.st
          /\ hist' = IF Gen THEN Append(hist, e @@ [root |-> st.k, post |-> r.st, log |-> r.log, res |-> r.res, ok |-> r.ok]) ELSE hist
Spec == Init /\ [][Next]_<<st, hist>>
Bound == TLCGet("level") <= D
View == st
\* independent reading: the members capable of the phase, depth first
RECURSIVE Dfs(_, _)
RECURSIVE DfsKv(_, _, _)
Dfs(n, ph) == IF Cont(n) THEN (IF n.k = "P" /\ ph # "evaluate" THEN <<>> ELSE DfsKv(n, ph, 1))
              ELSE IF Can(n, ph) \/ (ph = "evaluate" /\ (Can(n, "call") \/ n.k = "N")) THEN <<n>> ELSE <<>>
DfsKv(n, ph, i) == IF i > Len(n.kv) THEN <<>> ELSE Dfs(n.kv[i][2], ph) \o DfsKv(n, ph, i + 1)
FailAt(s) == {i \in 1..Len(s) : s[i].k \in {"X", "N"}}
Upto(s) == IF FailAt(s) = {} THEN s ELSE SubSeq(s, 1, CHOOSE i \in FailAt(s) : \A j \in FailAt(s) : i <= j)
EachOnceInOrder == \A ph \in Phases :
   LET r == Result(st, ph, "1") d == SelectSeq(Upto(Dfs(st, ph)), LAMBDA x : x.k # "N") IN
   /\ Len(r.log) = Len(d) /\ \A i \in 1..Len(d) : r.log[i][1] = d[i].v /\ r.log[i][3] = "1"
   /\ r.ok <=> FailAt(Dfs(st, ph)) = {}
ResultKeys == LET r == Result(st, "evaluate", "1") IN r.ok => Keys(r.res) = Keys(st)
Routed == \A e \in Ops(st) : (e.op = "append" /\ At(st, e.p).k = "V") =>
   LET r == PStep(st, e) IN Keys(At(r.st, e.p)) = Slots /\ (r.ok => At(r.st, e.p) # At(st, e.p) \/ Get(At(st, e.p), SlotOf[e.val.fam]) = e.val)
GenPrint == (Gen /\ Len(hist) = D) => PrintT("HIST" \o ToJson(hist))
GenBound == Len(hist) < D
=============================================================================
