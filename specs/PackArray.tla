----------------------------- MODULE PackArray -----------------------------
(* C03. Packing a tree of numbers into one vector (or matrix) and back.         *)
(* Node: [k, v, e, r, c, kv]                                                    *)
(*   k = "S" scalar, "V" 1-d, "M" 2-d (r x c), "T" 3-d array, "X" not a number, *)
(*   "D"/"O" container.  e: the numbers, row-major; kv: entries.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ent(n) == n.kv
IsCont(n) == n.k \in {"D", "O"}
Flat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ss[i] IN F[Len(ss)]
ColMajor(n) == [j \in 1..(n.r * n.c) |-> n.e[((j - 1) % n.r) * n.c + ((j - 1) \div n.r) + 1]]
RowMajor(vec, r, c) == [j \in 1..(r * c) |-> vec[((j - 1) % c) * r + ((j - 1) \div c) + 1]]

RECURSIVE PackV(_)
PackV(n) ==
  CASE IsCont(n) -> Flat([i \in 1..Len(n.kv) |-> PackV(n.kv[i][2])])
    [] n.k \in {"S", "V"} -> n.e
    [] n.k = "M" -> ColMajor(n)
    [] OTHER -> <<>>

\* matrix packing: the columns of every numeric entry with as many rows as the first one
Cols(n) == CASE n.k = "S" -> <<n.e>> [] n.k = "V" -> <<n.e>>
             [] n.k = "M" -> [j \in 1..n.c |-> [i \in 1..n.r |-> n.e[(i - 1) * n.c + j]]]
             [] OTHER -> <<>>
RECURSIVE AllCols(_)
AllCols(n) == IF IsCont(n) THEN Flat([i \in 1..Len(n.kv) |-> AllCols(n.kv[i][2])]) ELSE Cols(n)
PackA(n) == LET cs == AllCols(n) IN
            IF cs = <<>> THEN <<>> ELSE SelectSeq(cs, LAMBDA x : Len(x) = Len(cs[1]))

\* unpacking consumes exactly what packing produced
RECURSIVE UnpackV(_, _)
RECURSIVE UnpackKv(_, _, _)
UnpackV(n, vec) ==           \* -> <<node, rest of vec>>
  LET take == Len(PackV(n)) rest == SubSeq(vec, take + 1, Len(vec)) mine == SubSeq(vec, 1, take) IN
  CASE IsCont(n) -> LET u == UnpackKv(n, vec, 1) IN <<[n EXCEPT !.kv = u[1]], u[2]>>
    [] n.k \in {"S", "V"} -> <<[n EXCEPT !.e = mine], rest>>
    [] n.k = "M" -> <<[n EXCEPT !.e = RowMajor(mine, n.r, n.c)], rest>>
    [] OTHER -> <<n, vec>>
UnpackKv(n, vec, i) ==
  IF i > Len(n.kv) THEN <<<<>>, vec>>
  ELSE LET u == UnpackV(n.kv[i][2], vec) w == UnpackKv(n, u[2], i + 1)
       IN <<<<<<n.kv[i][1], u[1]>>>> \o w[1], w[2]>>

\* the matrix form (a sequence of columns), for trees of arrays with one common number of rows and no scalars
RECURSIVE UnpackA(_, _)
RECURSIVE UnpackAKv(_, _, _)
UnpackA(n, cs) ==
  LET take == Len(Cols(n)) rest == SubSeq(cs, take + 1, Len(cs)) IN
  CASE IsCont(n) -> LET u == UnpackAKv(n, cs, 1) IN <<[n EXCEPT !.kv = u[1]], u[2]>>
    [] n.k = "V" -> <<[n EXCEPT !.e = cs[1]], rest>>
    [] n.k = "M" -> <<[n EXCEPT !.e = [q \in 1..(n.r * n.c) |-> cs[((q - 1) % n.c) + 1][((q - 1) \div n.c) + 1]]], rest>>
    [] OTHER -> <<n, cs>>
UnpackAKv(n, cs, i) ==
  IF i > Len(n.kv) THEN <<<<>>, cs>>
  ELSE LET u == UnpackA(n.kv[i][2], cs) w == UnpackAKv(n, u[2], i + 1)
       IN <<<<<<n.kv[i][1], u[1]>>>> \o w[1], w[2]>>

RECURSIVE Rows(_)
Rows(n) == CASE IsCont(n) -> UNION {Rows(n.kv[i][2]) : i \in 1..Len(n.kv)}
             [] n.k = "S" -> {0} [] n.k = "V" -> {Len(n.e)} [] n.k = "M" -> {n.r} [] OTHER -> {}
Uniform(n) == Cardinality(Rows(n)) <= 1 /\ Rows(n) # {0}

\* everything but the numbers
RECURSIVE Shape(_)
Shape(n) == IF IsCont(n) THEN <<n.k, [i \in 1..Len(n.kv) |-> <<n.kv[i][1], Shape(n.kv[i][2])>>]>>
            ELSE <<n.k, n.v, n.r, n.c, Len(n.e), IF n.k \in {"X", "T"} THEN n.e ELSE <<>>>>
=============================================================================
