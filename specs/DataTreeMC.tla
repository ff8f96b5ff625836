---------------------------- MODULE DataTreeMC ----------------------------
(* Exhaustive exploration of DataTree over a small alphabet, and generation of *)
(* every operation history up to depth D for replay into the code.             *)
EXTENDS DataTree, Json
CONSTANTS D, Gen, Small, Ordered
VARIABLES st, hist

T1 == Node("D", <<>>)
T2 == Node("D", <<<<"a", Leaf("7")>>>>)
T3 == Node("D", <<<<"b", Leaf("8")>>, <<"_h", Leaf("9")>>, <<"n", Node("D", <<<<"c", Leaf("6")>>>>)>>>>)
C1 == Node("D", <<<<"tag", Leaf("W x")>>, <<"v", Leaf("1")>>>>)
C2 == Node("D", <<<<"tag", Leaf("n")>>, <<"v", Leaf("2")>>>>)
Arr(s) == [k |-> "A", v |-> "", kv |-> s]
A1 == Arr(<<<<"", Leaf("4")>>>>)
T4 == Node("D", <<<<"b", A1>>>>)
Vals == IF Small THEN {Leaf("1"), T2, A1} ELSE {Leaf("1"), Leaf("2"), T1, T2, A1}
NKeys == {"a", "b", "n"}
Paths == {<<>>} \cup {<<k>> : k \in NKeys}

E(op, p, q, key, val, i, new) == [op |-> op, p |-> p, q |-> q, key |-> key, val |-> val, i |-> i, new |-> new]
\* ordered containers (process, wing segments, missions): positional access, clear, extend
O2 == Node("O", <<<<"b", Leaf("8")>>, <<"a", Leaf("7")>>>>)
O3 == Node("D", <<<<"n", Node("O", <<<<"c", Leaf("6")>>>>)>>, <<"_h", Leaf("9")>>>>)
C3 == Node("D", <<<<"tag", Leaf("B")>>>>)
OrdOps(s) ==
  LET P == {p \in Paths : NodePath(s, p)} IN
       {E("setattr", p, <<>>, k, v, 0, "") : p \in P, k \in NKeys, v \in {Leaf("1"), O2, T2}}
  \cup {E("setitem", p, <<>>, k, Leaf("3"), 0, "") : p \in P, k \in {"a"}}
  \cup {E(o, p, <<>>, k, Nil, 0, "") : o \in {"delattr", "delitem"}, p \in P, k \in NKeys}
  \cup {E(o, p, <<>>, k, Nil, 0, "") : o \in {"getattr", "has"}, p \in P, k \in {"a"}}
  \cup {E("getint", <<>>, <<>>, "", Nil, i, "") : i \in 0..2}
  \cup {E("clear", p, <<>>, "", Nil, 0, "") : p \in P}
  \cup {E("append", <<>>, <<>>, "", c, 0, "") : c \in {C2, C3}}
  \cup {E("extend", <<>>, <<>>, "", Nil, 0, "") @@ [vals |-> v] : v \in {<<C2, C3>>, <<C3, C2>>, <<>>}}
  \cup {E("update", p, <<>>, "", t, 0, "") : p \in P, t \in {O2, O3, T3}}
  \cup {E("deep_set", <<>>, <<"n">>, "c", Leaf("0"), 0, "")}
  \cup {E("deep_get", <<>>, <<"n">>, "c", Nil, 0, "")}
  \cup {E(o, <<>>, <<>>, "", Nil, 0, "") : o \in {"deepcopy", "pickle"}}
DataOps(s) ==
  LET P == {p \in Paths : NodePath(s, p)} IN
       {E("setattr", p, <<>>, k, v, 0, "") : p \in P, k \in NKeys, v \in Vals}
  \cup {E("setitem", p, <<>>, k, Leaf("3"), 0, "") : p \in P, k \in {"a"}}
  \cup {E(o, p, <<>>, k, Nil, 0, "") : o \in {"delattr", "delitem", "pop"}, p \in P, k \in {"a", "n"}}
  \cup {E(o, <<>>, <<>>, k, Nil, 0, "") : o \in {"getattr", "getitem", "has"}, k \in {"a"}}
  \cup {E("appendkey", p, <<>>, "N", Leaf("5"), 0, "") : p \in {x \in P : At(s, x).k = "D"}}
  \cup {E("append", <<>>, <<>>, "", c, 0, w) : c \in {C1, C2}, w \in {"w_x1", "w_x2", "n1", "n2"}}
  \cup {E("update", p, <<>>, "", t, 0, "") : p \in P, t \in {T2, T3}}
  \cup {E("append_or_update", p, <<>>, "", t, 0, "") : p \in P, t \in {T3, T4}}
  \cup {E("deep_set", <<>>, <<"n">>, "c", Leaf("0"), 0, "")}
  \cup {E("deep_get", <<>>, <<"n">>, "c", Nil, 0, "")}
  \cup {E("recursive", <<>>, <<>>, "", T3, i, "") : i \in {0, 1}}
  \cup {E("deepcopy", <<>>, <<>>, "", Nil, 0, "")}
Ops(s) == IF Ordered THEN OrdOps(s) ELSE DataOps(s)
Enabled(s, e) == (Renames(s, e) => GoodName(At(s, e.p), e))
              /\ (e.op = "append" /\ ~Ordered /\ ~Renames(s, e) => e.new \in {"w_x1", "n1"} /\ e.new = Norm(Get(e.val, "tag").v) \o "1")

Init == st \in (IF Ordered THEN {Node("O", <<>>)} ELSE {Node("C", <<>>), Node("D", <<>>)}) /\ hist = <<>>
Next == \E e \in Ops(st) :
          /\ Enabled(st, e)
          /\ LET r == Step(st, e) IN
             /\ st' = r.st
             /\ hist' = IF Gen THEN Append(hist, e @@ [root |-> st.k, res |-> r.res, out |-> r.out, post |-> r.st]) ELSE hist
Spec == Init /\ [][Next]_<<st, hist>>

RECURSIVE Size(_)
RECURSIVE SizeKv(_, _)
SizeKv(n, i) == IF i > Len(n.kv) THEN 0 ELSE Size(n.kv[i][2]) + SizeKv(n, i + 1)
Size(n) == IF IsNode(n) THEN 1 + SizeKv(n, 1) ELSE IF n.k = "A" THEN Len(n.kv) ELSE 1
CONSTANT MaxSize
Bound == Size(st) <= MaxSize /\ TLCGet("level") <= D

\* ---- properties of the specification itself: for every state and every enabled operation ----
Names == WellFormed(st)
All(P(_, _, _)) == \A e \in Ops(st) : Enabled(st, e) => P(st, e, Step(st, e))
\* an entry not named by the operation keeps its value and its relative order
FrameP(s, e, r) ==
  (e.op \in {"setattr", "setitem", "delattr", "delitem", "pop", "append", "appendkey"} /\ e.p = <<>>) =>
     /\ \A k \in KeySet(s) \ {e.key} : Has(r.st, k) /\ Get(r.st, k) = Get(s, k)
     /\ \A j, k \in KeySet(s) \ {e.key} : Pos(s, j) < Pos(s, k) => Pos(r.st, j) < Pos(r.st, k)
Frame == All(FrameP)
NeverLostP(s, e, r) ==
  (e.op \in {"append", "appendkey", "update", "append_or_update", "setattr", "setitem", "deep_set"})
     => KeySet(s) \subseteq KeySet(r.st)
NeverLost == All(NeverLostP)
AppendKeepsP(s, e, r) == e.op = "append" /\ r.res = "ok" => Len(r.st.kv) = Len(s.kv) + 1
AppendKeeps == All(AppendKeepsP)
ErrorsHarmlessP(s, e, r) == (r.res # "ok" /\ e.op # "extend") => r.st = s
ErrorsHarmless == All(ErrorsHarmlessP)
\* re-assigning an entry keeps its position; a new one is last
OrderP(s, e, r) == (e.op \in {"setattr", "setitem"} /\ e.p = <<>>) =>
   IF Has(s, e.key) THEN Keys(r.st) = Keys(s) ELSE Keys(r.st) = Append(Keys(s), e.key)
Order == All(OrderP)
UpdateIdemP(s, e, r) == e.op = "update" => Upd(At(r.st, e.p), e.val, 1) = At(r.st, e.p)
UpdateIdempotent == All(UpdateIdemP)
\* update leaves what it does not mention alone, and what it mentions arrives
UpdateSoundP(s, e, r) == e.op = "update" =>
   LET n == At(r.st, e.p) IN
   \A i \in 1..Len(e.val.kv) : LET k == e.val.kv[i][1] IN
      /\ ~Hidden(k) => Has(n, k) /\ (~IsNode(e.val.kv[i][2]) => Get(n, k) = e.val.kv[i][2])
      /\ Hidden(k) => (Has(n, k) <=> Has(At(s, e.p), k))
UpdateSound == All(UpdateSoundP)
View == st
GenPrint == (Gen /\ Len(hist) = D) => PrintT("HIST" \o ToJson(hist))
GenBound == Len(hist) < D
=============================================================================
