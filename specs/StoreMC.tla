------------------------------ MODULE StoreMC ------------------------------
(* Two values, two files; writing that fails, overwriting, reading into a value that is there.            *)
EXTENDS Store, Json
CONSTANTS D, Emit
VARIABLES v, f, last, h              \* last: what was last written to each file
vars == <<v, f, last, h>>
I(s) == Node("int", "", <<>>, <<s>>, <<>>, <<>>)
L == Node("list", "i", <<2>>, <<"1", "2">>, <<>>, <<I("1"), I("2")>>)
Bad == Node("bad", "", <<>>, <<>>, <<>>, <<>>)
Fn == Node("fn", "", <<>>, <<>>, <<>>, <<>>)
Sub == Node("dict", "Data", <<>>, <<>>, <<"p">>, <<Node("np", "i", <<>>, <<"7">>, <<>>, <<>>)>>)
Top == Node("dict", "Data", <<>>, <<>>, <<"a", "b">>, <<I("1"), Sub>>)
None == Node("no file", "", <<>>, <<>>, <<>>, <<>>)
Leaves == {L, Bad, Fn, Sub}
Paths == {<<"a">>, <<"b">>, <<"b", "p">>, <<"c">>}
Init == v = [i \in 1..2 |-> Top] /\ f = [i \in 1..2 |-> None] /\ last = [i \in 1..2 |-> None] /\ h = <<>>
Edit(k, p, x) == /\ Len(p) = 1 \/ (Has(v[k], <<p[1]>>) /\ At(v[k], <<p[1]>>).t = "dict")
                 /\ v' = [v EXCEPT ![k] = SetAt(@, p, x)] /\ h' = Append(h, [op |-> "edit", k |-> k, p |-> p, x |-> x]) /\ UNCHANGED <<f, last>>
Drop(k, p) == Has(v[k], p) /\ v' = [v EXCEPT ![k] = DropAt(@, p)] /\ h' = Append(h, [op |-> "drop", k |-> k, p |-> p]) /\ UNCHANGED <<f, last>>
Write(k, i) == /\ f' = (IF Writable(v[k]) THEN [f EXCEPT ![i] = Back(v[k])] ELSE f)
               /\ last' = (IF Writable(v[k]) THEN [last EXCEPT ![i] = v[k]] ELSE last)
               /\ h' = Append(h, [op |-> "write", k |-> k, f |-> i]) /\ UNCHANGED v
Load(k, i) == f[i] # None /\ v' = [v EXCEPT ![k] = [f[i] EXCEPT !.c = "Data"]] /\ h' = Append(h, [op |-> "load", k |-> k, f |-> i]) /\ UNCHANGED <<f, last>>
Next == Len(h) < D /\ \E k \in 1..2 : (\E p \in Paths : (\E x \in Leaves : Edit(k, p, x)) \/ Drop(k, p)) \/ \E i \in 1..2 : Write(k, i) \/ Load(k, i)
Spec == Init /\ [][Next]_vars
View == <<v, f, last, Len(h)>>
\* reading again what was read changes nothing more
Once == \A k \in 1..2 : Back(Back(v[k])) = Back(v[k]) /\ Read(Read(v[k])) = Read(v[k])
Held == \A i \in 1..2 : last[i] # None => f[i] = Back(last[i])
Loud == \A i \in 1..2 : f[i] # None => Writable(f[i]) /\ Writable(last[i])
Keys == \A k \in 1..2 : Back(v[k]).k = v[k].k /\ Len(v[k].k) = Len(v[k].e)
EditAt == \A k \in 1..2 : \A p \in Paths : Has(v[k], p) => At(SetAt(v[k], p, L), p) = L /\ SetAt(v[k], p, At(v[k], p)) = v[k] /\ ~ Has(DropAt(v[k], p), p)
Trees == \A k \in 1..2 : Len(D3("r", v[k]).e) = (IF v[k].k = <<>> THEN 1 ELSE Len(v[k].k)) /\ Len(FreeMind(v[k]).e) = Len(v[k].k) /\ Len(FromDict(v[k]).e) = Len(v[k].k)
GenPrint == (Emit /\ Len(h) = D) => PrintT("HIST" \o ToJson(h))
=============================================================================
