-------------------------------- MODULE Solve --------------------------------
(* C08. What a solver is asked for: the best design within the bounds which meets   *)
(* every constraint.  p: vars [lo, hi, sc, un, ini]; the variables' real values are  *)
(* x*sc*un for the solver's x; f and the constraints are quadratics in them.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE QSum(_, _, _)
QSum(q, v, i) == IF i > Len(v) THEN q.c ELSE q.a[i] * v[i] * v[i] + q.b[i] * v[i] + QSum(q, v, i + 1)
Quad(q, v) == QSum(q, v, 1)
Points(p) == LET B(i) == {x \in -8..8 : p.vars[i].lo <= x * p.vars[i].sc /\ x * p.vars[i].sc <= p.vars[i].hi} IN
             IF Len(p.vars) = 1 THEN {<<x>> : x \in B(1)} ELSE {<<x, y>> : x \in B(1), y \in B(2)}
Val(p, x) == [i \in 1..Len(x) |-> x[i] * p.vars[i].sc * p.vars[i].un]
Meets(c, v) == LET g == Quad(c.q, v) IN CASE c.s = "<" -> g <= c.e * c.un [] c.s = ">" -> g >= c.e * c.un [] OTHER -> g = c.e * c.un
Good(p) == {x \in Points(p) : \A k \in 1..Len(p.con) : Meets(p.con[k], Val(p, x))}
Best(p) == {x \in Good(p) : \A y \in Good(p) : Quad(p.obj, Val(p, x)) <= Quad(p.obj, Val(p, y))}
=============================================================================
