----------------------------- MODULE BatteryMC -----------------------------
EXTENDS Battery, Json
CONSTANTS N, Emit
VARIABLES w, ss
Leg(d, c, t, inc) == [dis |-> d, cur |-> c, T |-> t, inc |-> inc, temp |-> 0, hat |-> 0]
Kinds == {Leg(TRUE, c, t, inc) : c \in {1, 4}, t \in {200, 400}, inc \in {FALSE, TRUE}} \cup {Leg(FALSE, 0, 0, i) : i \in {FALSE, TRUE}} \cup {Leg(TRUE, -1, 400, FALSE)}
Worlds == {[volt |-> 10, emax |-> 20000, ci |-> 2, cv |-> 25, e0 |-> e, day0 |-> 3, q0 |-> 0, aged |-> a, fade |-> 1000000, par |-> p, nmc |-> FALSE, grow |-> 0, hc |-> 2200] :
           e \in {20000, 12000, 22000}, a \in {0, 20000}, p \in {1, 2}}
Flow(i) == Legs(w, ss)[i]
Chargeable(s) == ~Stores(s) \/ (Len(ss) > 0 /\ Flow(Len(ss)).e + 800 <= Min(Flow(Len(ss)).emis, Flow(Len(ss)).aged))
Init == w \in Worlds /\ ss = <<>>
Next == Len(ss) < N /\ \E s \in Kinds : Chargeable(s) /\ (s.dis => Energy(w, Flow(Len(ss)), s, ss = <<>>, 4) >= 0) /\ ss' = Append(ss, s) /\ UNCHANGED w
Spec == Init /\ [][Next]_<<w, ss>>
Idx == 1..Len(ss)
Stored == \A i \in Idx : Flow(i).e \in 0..Max(w.emax, w.e0)
Spent == \A i \in Idx : ~Stores(ss[i]) => Flow(i).e = Flow(i - 1).e - ss[i].cur * w.volt * ss[i].T
Filled == \A i \in Idx : (Stores(ss[i]) /\ w.e0 <= w.emax) => IF ss[i].dis THEN Flow(i).e \in Flow(i - 1).e..Cap(w, Flow(i - 1), ss[i], i = 1) ELSE Flow(i).e = Cap(w, Flow(i - 1), ss[i], i = 1)
Counted == \A i \in Idx : Flow(i).q >= Flow(i - 1).q /\ Flow(i).t >= Flow(i - 1).t
Whole == \A i \in Idx : Soc(w, Flow(i - 1), ss[i], i = 1, 0) \in 0..1000
SameEnergySameCharge == \A i, j \in Idx : (Cap(w, Flow(i - 1), ss[i], i = 1) = Cap(w, Flow(j - 1), ss[j], j = 1) /\ Flow(i).e = Flow(j).e)
                           => Soc(w, Flow(i - 1), ss[i], i = 1, 4) = Soc(w, Flow(j - 1), ss[j], j = 1, 4)
GenPrint == (Emit /\ Len(ss) = N) => PrintT("HIST" \o ToJson([w |-> w, ss |-> ss]))
=============================================================================
