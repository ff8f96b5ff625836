------------------------------- MODULE Vehicle -------------------------------
(* C06. Vehicles: where components go, under which names, what the vehicle weighs *)
(* and where its centre of gravity is.                                            *)
(* A world is a sequence of vehicles (copies of one another).  A vehicle is        *)
(* [slots, mass, mvals]: slots a sequence of <<name, nodes>>.  A node is           *)
(* [k, name, id, m, o, g, kids]: "K" component, "B" nested component container,    *)
(* m its mass, o the origins of its instances, g its centre of gravity.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Families
\* most specific family first does not matter: every family has one home
Home == [Fuselage |-> "fuselages", Wing |-> "wings", Main_Wing |-> "wings", Horizontal_Tail |-> "wings",
         Vertical_Tail |-> "wings", System |-> "systems", Network |-> "networks", Turbofan |-> "networks",
         Nacelle |-> "nacelles", Landing_Gear |-> "landing_gear", Main_Landing_Gear |-> "landing_gear"]
SlotNames == <<"fuselages", "wings", "networks", "nacelles", "systems", "payload", "landing_gear">>
FreshVehicle == [slots |-> [i \in 1..Len(SlotNames) |-> <<SlotNames[i], <<>>>>], mvals |-> <<<<"takeoff", 0>>, <<"payload", 0>>>>]
Names(ns) == {ns[i].name : i \in 1..Len(ns)}
SlotIx(v, s) == CHOOSE i \in 1..Len(v.slots) : v.slots[i][1] = s
Slot(v, s) == v.slots[SlotIx(v, s)][2]
SetSlot(v, s, ns) == [v EXCEPT !.slots[SlotIx(v, s)][2] = ns]
HasSlot(v, s) == \E i \in 1..Len(v.slots) : v.slots[i][1] = s

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE MassOf(_)
MassOf(ns) == Sum([i \in 1..Len(ns) |-> IF ns[i].k = "B" THEN MassOf(ns[i].kids) ELSE ns[i].m])
\* moment of a component: its mass times (mean origin of its instances + its own centre of gravity)
Mom1(n, d) == n.m * (Sum([j \in 1..Len(n.o) |-> n.o[j][d]]) \div Len(n.o) + n.g[d])
RECURSIVE MomOf(_, _)
MomOf(ns, d) == Sum([i \in 1..Len(ns) |-> IF ns[i].k = "B" THEN MomOf(ns[i].kids, d) ELSE Mom1(ns[i], d)])
VMass(v) == Sum([i \in 1..Len(v.slots) |-> MassOf(v.slots[i][2])])
VMom(v) == [d \in 1..3 |-> Sum([i \in 1..Len(v.slots) |-> MomOf(v.slots[i][2], d)])]

\* nodes at a path: slot name followed by nested container names
IxOf(ns, nm) == CHOOSE i \in 1..Len(ns) : ns[i].name = nm
RECURSIVE NodesAt(_, _)
NodesAt(ns, p) == IF p = <<>> THEN ns ELSE NodesAt(ns[IxOf(ns, Head(p))].kids, Tail(p))
RECURSIVE PutAt(_, _, _)
PutAt(ns, p, new) == IF p = <<>> THEN new
                     ELSE LET i == IxOf(ns, Head(p)) IN [ns EXCEPT ![i].kids = PutAt(@, Tail(p), new)]
At(v, p) == NodesAt(Slot(v, Head(p)), Tail(p))
Put(v, p, new) == SetSlot(v, Head(p), PutAt(Slot(v, Head(p)), Tail(p), new))

\* A component appended under a free name takes that name (its tag, normalised: e.norm);
\* under a taken one it gets some fresh name starting with it (e.name, the one the code chose).
NameOk(ns, e) == IF e.norm \in Names(ns)
                 THEN e.name \notin Names(ns) /\ Len(e.name) > Len(e.norm) /\ SubSeq(e.name, 1, Len(e.norm)) = e.norm
                 ELSE e.name = e.norm
Add(ns, e) == Append(ns, [e.comp EXCEPT !.name = e.name])
Without(ns, nm) == SelectSeq(ns, LAMBDA n : n.name # nm)
\* -> [w, ok, out]
Res(w, ok, out) == [w |-> w, ok |-> ok, out |-> out]
VStep(w, e) ==
  LET v == IF e.i = 0 THEN FreshVehicle ELSE w[e.i]
      Upd(nv) == [w EXCEPT ![e.i] = nv]
  IN CASE e.op = "new" -> Res(Append(w, FreshVehicle), TRUE, <<>>)
       [] e.op = "copy" -> Res(Append(w, w[e.i]), TRUE, <<>>)
       [] e.op = "append" -> IF e.fam \in DOMAIN Home
                             THEN LET p == <<Home[e.fam]>> IN Res(Upd(Put(v, p, Add(At(v, p), e))), TRUE, <<>>)
                             ELSE Res(w, FALSE, <<>>)
       [] e.op = "place" -> Res(Upd(Put(v, e.p, Add(At(v, e.p), e))), TRUE, <<>>)
       [] e.op = "extra" -> Res(Upd([v EXCEPT !.slots = Append(@, <<e.name, <<>>>>)]), TRUE, <<>>)
       [] e.op = "remove" -> Res(Upd(Put(v, e.p, Without(At(v, e.p), e.name))), TRUE, <<>>)
       [] e.op = "reweigh" -> LET ns == At(v, e.p) IN
                              Res(Upd(Put(v, e.p, [ns EXCEPT ![IxOf(ns, e.name)].m = e.m])), TRUE, <<>>)
       [] e.op = "masses" -> Res(Upd([v EXCEPT !.mvals = e.mvals]), TRUE, <<>>)
       [] e.op = "mass" -> Res(w, TRUE, <<VMass(v)>>)
       [] e.op = "cmass" -> Res(w, TRUE, <<MassOf(At(v, e.p))>>)
       [] e.op = "cmom" -> Res(w, TRUE, [d \in 1..3 |-> MomOf(At(v, e.p), d)])
       [] e.op = "cg" -> Res(w, TRUE, VMom(v))
\* the centre of gravity, times 1000 and rounded by the observer, is the moment over the mass
CgOk(v, out) == LET m == IF VMass(v) = 0 THEN 1 ELSE VMass(v) IN
                \A d \in 1..3 : LET err == out[d] * m - 1000 * VMom(v)[d] IN err <= m /\ err >= -m
=============================================================================
