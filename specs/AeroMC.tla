------------------------------- MODULE AeroMC -------------------------------
EXTENDS Aero, Json
CONSTANTS N, Emit
VARIABLES v, s, hist
K == <<[t |-> 1, pd |-> <<900000, 700000>>, wet |-> 240000, ar |-> 9000, dia |-> 0, n |-> 1, vert |-> FALSE, skip |-> FALSE],
       [t |-> 1, pd |-> <<250000, 200000>>, wet |-> 60000, ar |-> 5000, dia |-> 0, n |-> 1, vert |-> FALSE, skip |-> FALSE],
       [t |-> 2, pd |-> <<800000, 600000>>, wet |-> 380000, ar |-> 0, dia |-> 0, n |-> 1, vert |-> FALSE, skip |-> FALSE],
       [t |-> 2, pd |-> <<500000, 600000>>, wet |-> 90000, ar |-> 0, dia |-> 0, n |-> 1, vert |-> FALSE, skip |-> TRUE],
       [t |-> 3, pd |-> <<60000, 50000>>, wet |-> 18000, ar |-> 0, dia |-> 2000, n |-> 2, vert |-> FALSE, skip |-> FALSE]>>
Fresh == [trim |-> 1020, flc |-> 1140, inc |-> 0, spoil |-> 0, ld |-> 0, kv |-> 38, osw |-> 0, span |-> 0, clmax |-> 0]
Init == v = [parts |-> <<1>>, S |-> <<120, 30, 0, 0, 0>>, sref |-> 120] /\ s = Fresh /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
Has(k) == \E i \in 1..Len(v.parts) : v.parts[i] = k
Next ==
  /\ Len(hist) < N
  /\ \/ \E k \in 1..Len(K) : ~Has(k) /\ v' = Add(v, k) /\ Op([op |-> "add", k |-> k]) /\ UNCHANGED s
     \/ \E k \in 2..Len(K) : Has(k) /\ v' = Del(v, k) /\ Op([op |-> "del", k |-> k]) /\ UNCHANGED s
     \/ \E k \in 1..2 : Has(k) /\ v' = Area(v, k, 2 * v.S[k]) /\ Op([op |-> "area", k |-> k, a |-> 2 * v.S[k]]) /\ UNCHANGED s
     \/ v.sref < 480 /\ v' = Sref(v, 2 * v.sref) /\ Op([op |-> "sref", a |-> 2 * v.sref]) /\ UNCHANGED s
     \/ \E f \in {<<"inc", 500>>, <<"ld", 10>>, <<"osw", 80>>, <<"span", 90>>, <<"clmax", 300>>, <<"trim", 1100>>} :
          s[f[1]] # f[2] /\ s' = [s EXCEPT ![f[1]] = f[2]] /\ Op([op |-> "set", f |-> f[1], x |-> f[2]]) /\ UNCHANGED v
Spec == Init /\ [][Next]_<<v, s, hist>>
P == 1..2
\* wings lift by their kind
Cl(x) == [i \in 1..Len(Of(K, x, 1)) |-> 20000 * Of(K, x, 1)[i]]
Cdi(x) == [i \in 1..Len(Of(K, x, 1)) |-> 300000 * Of(K, x, 1)[i]]
Par(x, p) == Parasite(K, x, p, TRUE)
Whole(x, t, p) == LET L == Lift(K, x, t, Cl(x)) IN Total(t, Trimmed(t, Coef(Par(x, p), x.sref) + Induced(K, x, t, p, Cl(x), Cdi(x), L) + Coef(EsduD(Wet(K, x)), x.sref)))
\* a part brings its own drag area, whatever else is there
Adds == \A p \in P, k \in 1..Len(K) : ~Has(k) => Near(Par(Add(v, k), p) - Par(v, p), IF K[k].skip THEN 0 ELSE K[k].pd[p] + (IF K[k].t = 3 THEN K[k].pd[p] \div 5 ELSE 0), 1)
\* order does not matter
Reverse == [v EXCEPT !.parts = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]
Order == \A p \in P : Par(v, p) = Par(Reverse, p) /\ Wet(K, v) = Wet(K, Reverse) /\ Near(Lift(K, v, s, Cl(v)), Lift(K, Reverse, s, Cl(Reverse)), 2)
                      /\ (s.osw = 0 => Near(Whole(v, s, p), Whole(Reverse, s, p), 20))
\* the reference area is only a unit: coefficients times area stay
Unit == \A p \in P : s.osw = 0 => Near(Coef(Par(v, p), v.sref), 2 * Coef(Par(Sref(v, 2 * v.sref), p), 2 * v.sref), 8) /\ Near(Lift(K, v, s, Cl(v)), 2 * Lift(K, Sref(v, 2 * v.sref), s, Cl(v)), 8)
\* nothing bought with a setting: more increment, more drag; a limit limits
Monotone == \A p \in P : Whole(v, [s EXCEPT !.inc = @ + 100], p) >= Whole(v, s, p) /\ Whole(v, [s EXCEPT !.ld = @ + 10], p) <= Whole(v, s, p)
Limits == \A x \in {-50000, -20000, 0, 20000, 50000} : LET c == Clip(s, x) IN (s.clmax > 0 => Abs(c) <= 100 * s.clmax) /\ Sgn(c) * Sgn(x) >= 0 /\ Clip(s, c) = c /\ Abs(c) <= Abs(x)
GenPrint == (Emit /\ Len(hist) = N) => PrintT("HIST" \o ToJson(hist))
=============================================================================
