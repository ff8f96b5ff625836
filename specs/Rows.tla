-------------------------------- MODULE Rows --------------------------------
(* C09. The state of a segment as arrays over control points: expanding it from     *)
(* one row to the number of control points, joining the states of all segments of    *)
(* a mission into one, and handing the joined unknowns back.                          *)
(*                                                                                  *)
(* A state is a sequence of nodes [p, t, m, adj, n]: p the path of keys, t = "cond"   *)
(* (an expandable container with n rows), "data" (a plain container), "arr" (rows m), *)
(* "exp" (a value waiting for n - adj rows), "vec" / "num" (not two-dimensional).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Flat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ss[i] IN F[Len(ss)]
At(st, p) == CHOOSE i \in 1..Len(st) : st[i].p = p
Has(st, p) == \E i \in 1..Len(st) : st[i].p = p
Node(st, p) == st[At(st, p)]
Prefix(p, k) == SubSeq(p, 1, k)
\* --- expansion ------------------------------------------------------------------
Kept == {"initials", "numerics"}                   \* parts of a state that are not over control points
Reached(st, p) == Len(p) = 0 \/ (p[1] \notin Kept /\ \A k \in 1..(Len(p) - 1) : Node(st, Prefix(p, k)).t = "cond")
Resize(m, n) == [i \in 1..n |-> m[((i - 1) % Len(m)) + 1]]
Grown(st, x, n, ov) ==
  IF ~Reached(st, x.p) THEN x
  ELSE CASE x.t = "cond" -> [x EXCEPT !.n = n]
         [] x.t = "exp" -> IF Len(x.p) = 1 THEN x ELSE [x EXCEPT !.t = "arr", !.m = Resize(x.m, n - x.adj), !.adj = 0]
         [] x.t = "arr" -> IF Len(x.p) = 1 \/ Len(x.m) <= 1 \/ ov THEN [x EXCEPT !.m = Resize(x.m, n)] ELSE x
         [] OTHER -> x
Expand(st, n, ov) == Map(st, LAMBDA x : Grown(st, x, n, ov))
\* --- joining --------------------------------------------------------------------
Joined == {"unknowns", "conditions", "residuals"}
Part(st) == SelectSeq(st, LAMBDA x : Len(x.p) > 0 /\ x.p[1] \in Joined)
Join2(a, b) ==
  LET both == Map(a, LAMBDA x : IF Has(b, x.p) THEN LET y == Node(b, x.p) IN
                                   IF {x.t, y.t} \subseteq {"arr", "vec"} THEN [x EXCEPT !.t = "arr", !.m = @ \o y.m]
                                   ELSE IF y.t \in {"cond", "data"} THEN x ELSE y
                                ELSE x)
  IN both \o SelectSeq(b, LAMBDA y : ~Has(a, y.p))
Join(states) == LET F[i \in 1..Len(states)] == IF i = 1 THEN Part(states[1]) ELSE Join2(F[i - 1], Part(states[i])) IN F[Len(states)]
\* --- the joined unknowns as one vector, and back -----------------------------------
\* keys of a group in the order they were first met
Arrays(st, g) == SelectSeq(st, LAMBDA x : Len(x.p) > 0 /\ x.p[1] = g /\ x.t = "arr")
Columns(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
Packed(m) == Flat([j \in 1..Columns(m) |-> [i \in 1..Len(m) |-> m[i][j]]])
Pack(st, g) == Flat(Map(Arrays(st, g), LAMBDA x : Packed(x.m)))
\* the value of x (a node of st) when the vector is laid out as Pack(st, g) is
Offset(st, g, p) == LET as == Arrays(st, g)  k == CHOOSE k \in 1..Len(as) : as[k].p = p IN
                    LET F[i \in 0..(k - 1)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(as[i].m) * Columns(as[i].m) IN F[k - 1]
Unpacked(st, g, x, vec) == LET o == Offset(st, g, x.p)  r == Len(x.m) IN
                           [i \in 1..r |-> [j \in 1..Columns(x.m) |-> vec[o + (j - 1) * r + i]]]
\* rows of the k-th state's entry p within the joined entry
Before(states, k, p) == LET F[i \in 0..(k - 1)] == IF i = 0 THEN 0
                              ELSE F[i - 1] + (IF Has(states[i], p) THEN Len(Node(states[i], p).m) ELSE 0) IN F[k - 1]
Handed(states, joined, vec) ==
  [k \in 1..Len(states) |-> Map(states[k], LAMBDA x :
     IF Len(x.p) > 0 /\ x.p[1] = "unknowns" /\ x.t = "arr"
     THEN LET all == Unpacked(joined, "unknowns", Node(joined, x.p), vec)  o == Before(states, k, x.p)
          IN [x EXCEPT !.m = SubSeq(all, o + 1, o + Len(x.m))]
     ELSE x)]
\* one iteration of an all-at-once mission whose segments answer every unknown u with the residual of the same name, u + 1
Plus(m) == Map(m, LAMBDA r : Map(r, LAMBDA v : v + 1))
Answer(st) == Map(st, LAMBDA x : IF Len(x.p) > 0 /\ x.p[1] = "residuals" /\ x.t = "arr" /\ Has(st, <<"unknowns", x.p[2]>>)
                                  THEN [x EXCEPT !.m = Plus(Node(st, <<"unknowns", x.p[2]>>).m)] ELSE x)
Iterated(states, joined, vec) == LET h == Handed(states, joined, vec) IN [k \in 1..Len(h) |-> Answer(h[k])]
=============================================================================
