------------------------------- MODULE Store -------------------------------
(* C18. What is written to a file is what was there, and reading it gives that back.                    *)
(* A value is [t: what it is, c: class or kind, s: shape, v: its texts, k: keys, e: what it contains];      *)
(* x is how it prints.                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Node(t, c, s, v, k, e) == [t |-> t, c |-> c, s |-> s, v |-> v, k |-> k, e |-> e, x |-> ""]
NoneV == Node("none", "", <<>>, <<>>, <<>>, <<>>)
RECURSIVE Plain(_), Back(_), Writable(_), SetAt(_, _, _), DropAt(_, _), Has(_, _), At(_, _)
Idx(q, a) == CHOOSE i \in 1..Len(q) : q[i] = a
In(q, a) == \E i \in 1..Len(q) : q[i] = a
Plain(n) == Node(n.t, n.c, n.s, n.v, n.k, IF n.t = "dict" THEN [i \in 1..Len(n.e) |-> Plain(n.e[i])] ELSE <<>>)
Scalar(c, v) == Node(CASE c = "i" -> "int" [] c = "f" -> "float" [] c = "b" -> "bool" [] OTHER -> "str", "", <<>>, v, <<>>, <<>>)
\* an empty axis ends the nesting of lists
Upto(s) == IF In(s, 0) THEN SubSeq(s, 1, CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] # 0) ELSE s
Arr(n) == Node("arr", IF In(n.s, 0) THEN "f" ELSE n.c, Upto(n.s), n.v, <<>>, <<>>)
\* what reading gives for what was written
Back(n) ==
  CASE n.t = "dict" -> Node("dict", "DataOrdered", <<>>, <<>>, n.k, [i \in 1..Len(n.e) |-> Back(n.e[i])])
    [] n.t \in {"arr", "list"} -> IF n.s = <<>> THEN Scalar(n.c, n.v) ELSE Arr(n)
    [] n.t = "np" -> Scalar(n.c, n.v)
    [] n.t = "fn" -> NoneV
    [] OTHER -> Plain(n)
Read(n) == [Back(n) EXCEPT !.c = "Data"]
Writable(n) == n.t # "bad" /\ \A i \in 1..Len(n.e) : Writable(n.e[i])
Has(n, p) == IF p = <<>> THEN TRUE ELSE IF n.t = "dict" /\ In(n.k, p[1]) THEN Has(n.e[Idx(n.k, p[1])], Tail(p)) ELSE FALSE
At(n, p) == IF p = <<>> THEN n ELSE At(n.e[Idx(n.k, p[1])], Tail(p))
SetAt(n, p, x) == IF p = <<>> THEN x
                  ELSE IF In(n.k, p[1]) THEN [n EXCEPT !.e[Idx(n.k, p[1])] = SetAt(@, Tail(p), x)]
                  ELSE [n EXCEPT !.k = Append(@, p[1]), !.e = Append(@, x)]
Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
DropAt(n, p) == IF Len(p) = 1 THEN LET i == Idx(n.k, p[1]) IN [n EXCEPT !.k = Cut(@, i), !.e = Cut(@, i)]
                ELSE [n EXCEPT !.e[Idx(n.k, p[1])] = DropAt(@, Tail(p))]
\* ---- trees for looking at
Leaf(name) == [n |-> name, e |-> <<>>]
RECURSIVE D3(_, _), Fm(_), FmAll(_)
D3(name, n) ==
  [n |-> name, e |-> IF n.t # "dict" THEN <<Leaf(n.x)>> ELSE IF n.k = <<>> THEN <<Leaf("{}")>>
                     ELSE [i \in 1..Len(n.k) |-> D3(n.k[i], n.e[i])]]
FmAll(q) == IF q = <<>> THEN <<>> ELSE Fm(Head(q)) \o FmAll(Tail(q))
Fm(n) == CASE n.t = "dict" -> [i \in 1..Len(n.k) |-> [n |-> n.k[i], e |-> Fm(n.e[i])]]
           [] n.t = "list" -> FmAll(n.e)
           [] n.t = "none" -> <<>>
           [] OTHER -> <<Leaf(n.x)>>
Named(n, root) == IF n.t = "dict" /\ In(n.k, "tag") THEN n.e[Idx(n.k, "tag")].x ELSE root
FreeMind(n) == [n |-> "map", e |-> IF In(n.k, "tag") THEN <<[n |-> Named(n, ""), e |-> Fm(n)]>> ELSE Fm(n)]
\* ---- XML elements [g: tag, a: attributes, x: text, e: elements]
RECURSIVE FromDict(_), XSet(_, _, _)
FromDict(n) == [g |-> Named(n, "node"), a |-> <<>>, x |-> "",
                e |-> [i \in 1..Len(n.k) |-> IF n.e[i].t = "dict" THEN [FromDict(n.e[i]) EXCEPT !.g = n.k[i]] ELSE [g |-> n.k[i], a |-> <<>>, x |-> n.e[i].x, e |-> <<>>]]]
XSet(n, p, x) == IF p = <<>> THEN x ELSE [n EXCEPT !.e[p[1]] = XSet(@, Tail(p), x)]
=============================================================================
