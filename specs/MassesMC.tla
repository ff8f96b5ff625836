----------------------------- MODULE MassesMC -----------------------------
(* An aircraft is loaded: fuel into any tank, passengers, cargo; the statement is drawn up at any time. *)
EXTENDS Masses, Json
CONSTANTS D, Emit
VARIABLES fill, p, h
vars == <<fill, p, h>>
Tanks == {<<[c |-> 3, x |-> 2, i |-> 1], [c |-> 2, x |-> 5, i |-> 2], [c |-> 4, x |-> 9, i |-> 3]>>,
          <<[c |-> 2, x |-> -3, i |-> 1], [c |-> 3, x |-> -3, i |-> 2], [c |-> 1, x |-> 4, i |-> 3]>>,
          <<[c |-> 5, x |-> 7, i |-> 1], [c |-> 1, x |-> 1, i |-> 2], [c |-> 2, x |-> 4, i |-> 3]>>}
Init == /\ \E ts \in Tanks : fill = [ts |-> ts, q |-> <<0, 0, 0>>]
        /\ p \in [pax : {0, 50}, cargo : {0, 1000}, acc : {"commuter", "sst"}, ctl : {"fully powered"}, rng : {1500}, mtow : {40000}, sref : {12000}, swing : {12000}]
        /\ h = <<>>
Fuel(i) == fill.q[i] < fill.ts[i].c /\ fill' = [fill EXCEPT !.q[i] = @ + 1] /\ UNCHANGED <<p, h>>
Board == p.pax < 400 /\ p' = [p EXCEPT !.pax = @ + 50] /\ h' = Append(h, "board") /\ UNCHANGED fill
Load == p.cargo < 4000 /\ p' = [p EXCEPT !.cargo = @ + 3000] /\ h' = Append(h, "load") /\ UNCHANGED fill
Refit(a) == p.acc # a /\ p' = [p EXCEPT !.acc = a] /\ h' = Append(h, a) /\ UNCHANGED fill
Next == (\E i \in 1..3 : Fuel(i)) \/ (Len(h) < D /\ (Board \/ Load \/ \E a \in {"cargo", "long-range", "commuter"} : Refit(a)))
Spec == Init /\ [][Next]_vars
Mass == fill.q[1] + fill.q[2] + fill.q[3]
Mom == fill.q[1] * fill.ts[1].x + fill.q[2] * fill.ts[2].x + fill.q[3] * fill.ts[3].x
Front == Ahead({fill.ts[i] : i \in 1..3})
\* whatever is in whichever tank, the centre is within the range
Within == Moment(Front, Mass) <= Mom /\ Mom <= Moment(Rev(Front), Mass)
Full == (Mass = fill.ts[1].c + fill.ts[2].c + fill.ts[3].c) => Moment(Front, Mass) = Moment(Rev(Front), Mass)
Ordered == Len(Front) = 3 /\ \A i \in 1..2 : Front[i].x <= Front[i + 1].x
Grows == [][\A k \in {"New SUAVE", "FLOPS"} : ~ Less(Payload(k, p').total, Payload(k, p).total) /\ ~ Less(Crew(k, p').flight_attendants, Crew(k, p).flight_attendants)]_p
PaySum == \A k \in {"New SUAVE", "FLOPS"} : Adds(Payload(k, p))
SysPos == LET s == Systems(p, <<3000, 2000>>) IN \A k \in DOMAIN s : s[k].m >= 0
GearShare == LET g == Gear(p) IN Same(Add(g.main_landing_gear, g.nose_landing_gear), Mul(N(4, -2), I(p.mtow))) /\ Same(g.main_landing_gear, Mul(I(9), g.nose_landing_gear))
TailFree == Same(Control(p, <<3000, 2000>>), Add(Control(p, <<3000>>), Control(p, <<2000>>))) /\ Same(Control(p, <<>>), Control(p, <<120>>))
GenPrint == (Emit /\ Len(h) = D /\ Mass = 0) => PrintT("HIST" \o ToJson([p |-> p, h |-> h]))
=============================================================================
