------------------------------ MODULE VehicleMC ------------------------------
EXTENDS Vehicle, Json
CONSTANTS D, Gen
VARIABLES w, hist
K(id, m, o, g) == [k |-> "K", name |-> "", id |-> id, m |-> m, o |-> o, g |-> g, kids |-> <<>>]
B == [k |-> "B", name |-> "", id |-> "", m |-> 0, o |-> <<>>, g |-> <<>>, kids |-> <<>>]
C1 == K("1", 3, <<<<4, 0, 0>>>>, <<1, 0, 0>>)
C2 == K("2", 5, <<<<4, 2, 0>>, <<8, -2, 0>>>>, <<0, 0, 1>>)
E(op, i, fam, p, norm, name, comp) == [op |-> op, i |-> i, fam |-> fam, p |-> p, norm |-> norm, name |-> name, comp |-> comp, m |-> 7, mvals |-> <<>>]
Fresh(ns, nm) == IF nm \in Names(ns) THEN CHOOSE x \in {nm \o "2", nm \o "3", nm \o "4", nm \o "5"} : x \notin Names(ns) ELSE nm
Paths(v) == UNION {{<<s>>} \cup {<<s, n.name>> : n \in {x \in {Slot(v, s)[j] : j \in 1..Len(Slot(v, s))} : x.k = "B"}} : s \in {v.slots[i][1] : i \in 1..Len(v.slots)}}
NonEmpty(v) == {p \in Paths(v) : At(v, p) # <<>>}
Ops(ww) == UNION { LET v == ww[i] IN
     {E("append", i, f, <<>>, nm, IF f \in DOMAIN Home THEN Fresh(Slot(v, Home[f]), nm) ELSE "", c) : f \in Families, nm \in {"a", "ab"}, c \in {C1, C2}}
     \cup {E("place", i, "", p, "a", Fresh(At(v, p), "a"), C1) : p \in {q \in Paths(v) : q[1] \in {"payload", "x"}}}
     \cup {E("place", i, "", <<s>>, "b", Fresh(Slot(v, s), "b"), B) : s \in {"payload"}}
     \cup (IF HasSlot(v, "x") THEN {} ELSE {E("extra", i, "", <<>>, "", "x", B)})
     \cup UNION {{E("remove", i, "", p, "", n, B) : n \in Names(At(v, p))} : p \in NonEmpty(v)}
     \cup UNION {{E("reweigh", i, "", p, "", At(v, p)[j].name, B) : j \in {j \in 1..Len(At(v, p)) : At(v, p)[j].k = "K"}} : p \in NonEmpty(v)}
     \cup {E("cg", i, "", <<>>, "", "", B), E("mass", i, "", <<>>, "", "", B)}
     \cup (IF Len(ww) < 2 THEN {E("copy", i, "", <<>>, "", "", B)} ELSE {})
   : i \in 1..Len(ww)}
Init == w = <<FreshVehicle>> /\ hist = <<>>
Next == \E e \in Ops(w) : LET r == VStep(w, e) IN
          w' = r.w /\ hist' = IF Gen THEN Append(hist, e @@ [post |-> r.w, ok |-> r.ok, out |-> r.out]) ELSE hist
Spec == Init /\ [][Next]_<<w, hist>>
Bound == TLCGet("level") <= D
View == w
\* invariants, over every operation from every reachable world
Count(v) == LET RECURSIVE N(_)
                N(ns) == Sum([j \in 1..Len(ns) |-> IF ns[j].k = "B" THEN 1 + N(ns[j].kids) ELSE 1])
            IN Sum([i \in 1..Len(v.slots) |-> N(v.slots[i][2])])
UniqueNames == \A i \in 1..Len(w) : \A p \in Paths(w[i]) : Cardinality(Names(At(w[i], p))) = Len(At(w[i], p))
NothingLost == \A e \in Ops(w) : LET r == VStep(w, e) IN
   (e.op \in {"append", "place"} /\ r.ok) => Count(r.w[e.i]) = Count(w[e.i]) + 1
Additive == \A e \in Ops(w) : LET r == VStep(w, e) IN
   (e.op \in {"append", "place"} /\ r.ok) => /\ VMass(r.w[e.i]) = VMass(w[e.i]) + (IF e.comp.k = "K" THEN e.comp.m ELSE 0)
      /\ \A d \in 1..3 : VMom(r.w[e.i])[d] = VMom(w[e.i])[d] + (IF e.comp.k = "K" THEN Mom1(e.comp, d) ELSE 0)
Refused == \A e \in Ops(w) : ~VStep(w, e).ok => VStep(w, e).w = w
Isolated == \A e \in Ops(w) : LET r == VStep(w, e) IN \A j \in 1..Len(w) : j # e.i => r.w[j] = w[j]
NamesFine == \A e \in Ops(w) : (e.op = "append" /\ e.fam \in DOMAIN Home) => NameOk(Slot(w[e.i], Home[e.fam]), e)
GenPrint == (Gen /\ Len(hist) = D) => PrintT("HIST" \o ToJson(hist))
GenBound == Len(hist) < D
=============================================================================
