------------------------------- MODULE AirMC -------------------------------
(* Two atmospheres edited one at a time, heights walked through.                                    *)
EXTENDS Air, Json
CONSTANTS D, Emit
VARIABLES A, h, z
vars == <<A, h, z>>
Std == [kind |-> "us", t0 |-> Zero, p0 |-> N(1, 0), g |-> N(1, 0)]
Heights == {-3000, -1500, 0, 4000, 10990, 11000, 15000, 20000, 26000, 32000, 40000, 47000, 49000, 51000, 60000, 71000, 80000, 90000}
Edits == {[f |-> "t0", x |-> N(10, 0)], [f |-> "p0", x |-> N(9, -1)], [f |-> "g", x |-> N(11, -1)]}
Init == A = <<Std, Std>> /\ h = <<>> /\ z = 0
Edit(k, e) == A' = [A EXCEPT ![k] = [@ EXCEPT ![e.f] = e.x]] /\ h' = Append(h, [op |-> "edit", k |-> k, f |-> e.f]) /\ z' = z
Ask(k, x) == /\ h # <<>> => h[Len(h)].op # "ask"
             /\ z' = x /\ h' = Append(h, [op |-> "ask", k |-> k]) /\ A' = A
Next == Len(h) < D /\ \E k \in 1..2 : (\E e \in Edits : Edit(k, e)) \/ \E x \in Heights : Ask(k, x)
Spec == Init /\ [][Next]_vars
H == Geo(N(z, 0))
\* standard air carries itself: from layer to layer, and inside of each
Continuous == \A i \in 1..8 : LET p == PIn(Std, Hb[i + 1], i)  s == Std IN
              LET d == Sub(Div(Mul(Pb[i], Exp(IF Rate(s, i).m = 0 THEN Neg(Div(Mul(Div(G0, R), Sub(Hb[i + 1], Hb[i])), Tb[i]))
                                                         ELSE Neg(Mul(Div(Div(G0, R), Rate(s, i)), Ln(Div(Tb[i + 1], Tb[i])))))), Pb[i + 1]), N(1, 0))
              IN d.e <= -10 \/ Abs(d.m) < 1 \/ ~Less(N(3, -4), IF d.m < 0 THEN Neg(d) ELSE d)
Step == N(400, 0)
Hydrostatic == \A k \in 1..2 : LET up == Add(H, Step) IN
  (Less(up, Hb[9]) /\ Layer(up) = Layer(H)) =>
    LET dp == Sub(PAt(A[k], H), PAt(A[k], up))
        m == Div(PAt(A[k], Add(H, N(200, 0))), Mul(R, TAt(A[k], Add(H, N(200, 0)))))
        w == Mul(Mul(m, Mul(A[k].g, G0)), Step)
        r == Sub(Div(dp, w), N(1, 0))
    IN ~Less(N(2, -3), IF r.m < 0 THEN Neg(r) ELSE r)
Clipped == (z < -2001 => Close(PAt(Std, H), Pb[1])) /\ (z > 86010 => Close(PAt(Std, H), PAt(Std, Hb[9])))
Warmer == \A k \in 1..2 : Close(Sub(TAt(A[k], H), TAt(Std, H)), A[k].t0)
Lengths == Same(Exp(Zero), N(1, 0)) /\ Same(Exp(N(1, 0)), N(2718282, -6)) /\ Close(Exp(N(-3, 0)), N(4978707, -8)) /\ Same(Ln(N(12, -1)), N(1823216, -7)) /\ Same(Ln(N(75, -2)), N(-2876821, -7))
GenPrint == (Emit /\ Len(h) = D) => PrintT("HIST" \o ToJson(h))
=============================================================================
