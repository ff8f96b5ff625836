-------------------------------- MODULE Tree --------------------------------
(* Insertion-ordered trees of named entries: the value domain shared by the    *)
(* container, configuration, process and persistence specifications.           *)
(* A node is a record [k, v, kv]:                                              *)
(*   k = "L" : a leaf, v its (string) value                                    *)
(*   k = "A" : a column array, v unused, kv its rows as leaves under name ""   *)
(*   k = "D" / "C" / ... : a container, kv its sequence of <<name, node>>      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Leaf(x)      == [k |-> "L", v |-> x, kv |-> <<>>]
Node(kind,s) == [k |-> kind, v |-> "", kv |-> s]
IsNode(n)    == n.k \in {"D", "C", "O", "P"}
IsData(n)    == n.k \in {"D", "C"}

Keys(n) == [i \in 1..Len(n.kv) |-> n.kv[i][1]]
KeySet(n) == {n.kv[i][1] : i \in 1..Len(n.kv)}
Has(n, key) == \E i \in 1..Len(n.kv) : n.kv[i][1] = key
Pos(n, key) == CHOOSE i \in 1..Len(n.kv) : n.kv[i][1] = key
Get(n, key) == n.kv[Pos(n, key)][2]

\* assignment: an existing entry keeps its place, a new one goes to the end
Put(n, key, x) ==
  IF Has(n, key) THEN [n EXCEPT !.kv = [@ EXCEPT ![Pos(n, key)] = <<key, x>>]]
  ELSE [n EXCEPT !.kv = Append(@, <<key, x>>)]

Del(n, key) ==
  LET p == Pos(n, key) IN
  [n EXCEPT !.kv = SubSeq(@, 1, p - 1) \o SubSeq(@, p + 1, Len(@))]

RECURSIVE HasPath(_, _)
HasPath(n, path) ==
  IF path = <<>> THEN TRUE
  ELSE IsNode(n) /\ Has(n, Head(path)) /\ HasPath(Get(n, Head(path)), Tail(path))

RECURSIVE At(_, _)
At(n, path) == IF path = <<>> THEN n ELSE At(Get(n, Head(path)), Tail(path))

RECURSIVE PutAt(_, _, _)
PutAt(n, path, x) ==
  IF path = <<>> THEN x
  ELSE Put(n, Head(path), PutAt(Get(n, Head(path)), Tail(path), x))

\* the node at a path which must be a container, else failure
NodePath(n, path) == HasPath(n, path) /\ IsNode(At(n, path))

\* all names and leaf values, with their paths: order-free content
RECURSIVE Content(_, _)
Content(n, pre) ==
  IF IsNode(n)
  THEN {<<pre, n.k, "">>} \cup
       UNION {Content(n.kv[i][2], Append(pre, n.kv[i][1])) : i \in 1..Len(n.kv)}
  ELSE {<<pre, n.k, IF n.k = "L" THEN n.v ELSE ToString(n.kv)>>}

SameContent(a, b) == Content(a, <<>>) = Content(b, <<>>)

NoDup(n) == Cardinality(KeySet(n)) = Len(n.kv)
RECURSIVE WellFormed(_)
WellFormed(n) ==
  /\ IsNode(n) => NoDup(n) /\ \A i \in 1..Len(n.kv) : WellFormed(n.kv[i][2])
  /\ n.k = "L" => n.kv = <<>>

Hidden(key) == SubSeq(key, 1, 1) = "_"
=============================================================================
