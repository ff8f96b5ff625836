------------------------------ MODULE UnitsMC ------------------------------
(* Two names hold units, one register a number; units are used, combined and used again.            *)
EXTENDS Units, Json
CONSTANTS D, Emit
VARIABLES a, b, x, base, h        \* base: what the register is worth in base units, whoever put it there
vars == <<a, b, x, base, h>>
Names == {"feet", "hr", "deg", "lb"}
X0 == N(25, -1)
Init == a \in [u : Names, n : {1}] /\ b \in [u : Names, n : {1}] /\ x = X0 /\ base = X0 /\ h = <<>>
V(k) == IF k = 1 THEN Table[a.u] ELSE Table[b.u]
Sz(k) == LET r == IF k = 1 THEN a ELSE b IN Pow(Table[r.u], r.n)
ToBase(k) == x' = In(Sz(k), x) /\ base' = Mul(base, Sz(k)) /\ h' = Append(h, [op |-> "in", k |-> k]) /\ UNCHANGED <<a, b>>
FromBase(k) == x' = Out(Sz(k), x) /\ base' = Div(base, Sz(k)) /\ h' = Append(h, [op |-> "out", k |-> k]) /\ UNCHANGED <<a, b>>
Power(k, n) == /\ IF k = 1 THEN a' = [a EXCEPT !.n = n] /\ b' = b ELSE b' = [b EXCEPT !.n = n] /\ a' = a
               /\ h' = Append(h, [op |-> "pow", k |-> k, n |-> n]) /\ UNCHANGED <<x, base>>
Next == Len(h) < D /\ \E k \in 1..2 : ToBase(k) \/ FromBase(k) \/ \E n \in {-1, 2, 3} : Power(k, n)
Spec == Init /\ [][Next]_vars
\* into and out of the same unit is the number again, whatever was done in between with other units
Back == \A k \in 1..2 : Same(Out(Sz(k), In(Sz(k), x)), x) /\ Same(In(Sz(k), Out(Sz(k), x)), x)
\* conversions commute and compose
Commutes == Same(In(Sz(1), In(Sz(2), x)), In(Sz(2), In(Sz(1), x))) /\ Same(In(Mul(Sz(1), Sz(2)), x), In(Sz(1), In(Sz(2), x)))
Root == Same(Mul(Sqrt(Sz(1)), Sqrt(Sz(1))), Sz(1)) /\ Same(Sqrt(Mul(Sz(1), Sz(1))), Sz(1))
Inverse == Same(In(Div(One, Sz(1)), x), Out(Sz(1), x))
Worth == Same(x, base)
TempBack == \A u \in DOMAIN Temp : \A t \in {-4000, 0, 3200, 10000} : Abs(TOut(u, TIn(u, t)) - t) <= 2
Fixed == TIn("degC", 0) = 27315 /\ Abs(TIn("degF", 3200) - 27315) <= 1 /\ Abs(TIn("degF", 21200) - TIn("degC", 10000)) <= 1 /\ Abs(TIn("degF", -4000) - TIn("degC", -4000)) <= 1
Known == /\ Same(Size(<<[u |-> "slug", n |-> 1], [u |-> "ft", n |-> -3]>>), N(5153788, -4)) /\ Same(Table.hp, N(7456999, -4)) /\ Same(Table.psi, N(6894757, -3)) /\ Same(Table.gallon, N(3785412, -9))
         /\ Same(Table.knot, N(5144444, -7)) /\ Same(Table.mph, N(44704, -5)) /\ Same(Table.slug, N(1459390, -5))
GenPrint == (Emit /\ Len(h) = D) => PrintT("HIST" \o ToJson([a |-> a.u, b |-> b.u, h |-> h]))
=============================================================================
