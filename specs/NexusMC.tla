------------------------------- MODULE NexusMC -------------------------------
EXTENDS Nexus, Json
CONSTANTS D, Gen
VARIABLES st, hist
I(n, v, lo, hi, sc, un) == [n |-> n, val |-> v, lo |-> lo, hi |-> hi, sc |-> sc, un |-> un]
K(n, s, e, sc, un) == [n |-> n, s |-> s, e |-> e, sc |-> sc, un |-> un]
Start == [cfg |-> <<<<"base", <<<<"v", 0>>, <<"w", 0>>>>>>, <<"cruise", <<<<"v", 0>>, <<"w", 1>>>>>>>>,
          sum |-> <<<<"p", 0>>, <<"q", 0>>>>,
          inp |-> <<I("x1", 1, -1, 3, 1, 1), I("x2", 2, 0, 4, 2, 1)>>,
          al |-> <<<<"x2", <<<<"sum", "q">>, <<"cfg", "*", "v">>>>>>, <<"x1", <<<<"sum", "p">>>>>>, <<"x1", <<<<"cfg", "cruise", "w">>>>>>,
                   <<"J", <<<<"res", "b">>>>>>, <<"g", <<<<"res", "a">>>>>>, <<"h", <<<<"sum", "q">>>>>> >>,
          obj |-> [n |-> "J", sc |-> 2, un |-> 10],
          con |-> <<K("g", ">", 3, 4, 2), K("h", "=", 1, 1, 1), K("g", "<", 2, 1, 10)>>,
          fid |-> 1, force |-> FALSE, hard |-> FALSE, res |-> [a |-> 0, b |-> 0], key |-> <<>>, cnt |-> 0]
NoAlias == [Start EXCEPT !.al = SelectSeq(@, LAMBDA a : a[1] # "x2")]
E(op, x, h, i, p) == [op |-> op, x |-> x, h |-> h, i |-> i, p |-> p]
Xs == {<<>>, <<0, 1>>, <<2, 1>>, <<13, 1>>, <<0, -3>>}
Ops(s) == {E(o, x, 0, 0, <<>>) : o \in {"obj", "ineq", "eq", "all", "table"}, x \in Xs}
     \cup {E("fd", <<0, 1>>, 1, 0, <<>>), E("fd", <<12, 1>>, 1, 0, <<>>)}
     \cup {E("input", <<>>, v, i, <<>>) : v \in {1, 5}, i \in {2}}
     \cup {E("fidelity", <<>>, 3 - s.fid, 0, <<>>), E("force", <<>>, IF s.force THEN 0 ELSE 1, 0, <<>>), E("hard", <<>>, IF s.hard THEN 0 ELSE 1, 0, <<>>)}
     \cup {E("poke", <<>>, 9, 0, p) : p \in {<<"sum", "p">>, <<"cfg", "base", "w">>}}
     \cup (IF Len(s.cfg) < 3 THEN {E("config", <<>>, 4, 0, <<"climb">>)} ELSE {})
Init == st \in {Start, NoAlias} /\ hist = <<>>
Next == \E e \in Ops(st) : LET r == NStep(st, e) IN st' = r.st
         /\ hist' = IF Gen THEN Append(hist, e @@ [pre |-> IF hist = <<>> THEN <<st>> ELSE <<>>, post |-> r.st, ok |-> r.ok, out |-> r.out]) ELSE hist
Spec == Init /\ [][Next]_<<st, hist>>
Bound == TLCGet("level") <= D
View == [st EXCEPT !.cnt = 0]
\* ---- what the design rests on ----
Fixed(s) == [s EXCEPT !.key = <<>>]
Untouched(s) == s.cfg[1][2][2][2] = 0 /\ Len(s.cfg) = 2       \* nothing poked that no input overwrites
\* a value never depends on what was evaluated before: the cache is invisible
Coherent == \A e \in Ops(st) : (e.op \in {"obj", "ineq", "eq", "all", "table", "fd"} /\ Untouched(st)) =>
    LET r == NStep(st, e) f == NStep([Fixed(st) EXCEPT !.res = [a |-> 77, b |-> 78]], e) IN r.ok = f.ok /\ r.out = f.out
Bounded == \A e \in Ops(st) : (e.op \in {"obj", "fd"} /\ st.hard) =>
    LET r == NStep(st, e) IN \A i \in 1..Len(r.st.inp) : r.st.inp[i].lo <= r.st.inp[i].val /\ r.st.inp[i].val <= r.st.inp[i].hi
Placed == \A e \in Ops(st) : (e.op = "obj" /\ Aliases(st, "x2") # <<>>) => LET r == NStep(st, e) IN
    /\ GetKv(r.st.sum, "p") = r.st.inp[1].val * r.st.inp[1].un
    /\ \A c \in 1..Len(r.st.cfg) : GetKv(r.st.cfg[c][2], "v") = r.st.inp[2].val * r.st.inp[2].un
Opposed == \A e \in Ops(st) : (e.op = "ineq" /\ NStep(st, e).ok) => LET r == NStep(st, e) IN
    (r.out[1] >= 0) <=> (Value(r.st, "g") >= 3 * 2)
GenPrint == (Gen /\ Len(hist) = D) => PrintT("HIST" \o ToJson(hist))
GenBound == Len(hist) < D
=============================================================================
