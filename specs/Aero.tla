-------------------------------- MODULE Aero --------------------------------
(* C13. Lift and drag of a vehicle, built up from its parts.                                      *)
(* K[k]: what a part is: [t: 1 wing 2 fuselage 3 nacelle, pd[p]: drag area alone (1e-6 m2), wet    *)
(*   (1e-3 m2), ar (1e-3), dia (mm), n (places), vert (a fin: no lift), skip (a blended body, no drag of its own)].         *)
(* A vehicle: [parts: seq of kinds, S: reference area of each kind (m2), sref].  Settings s: [trim, *)
(*   flc (1e-3), inc, spoil (1e-6), ld (percent), kv (percent), osw, span (percent, 0: none),          *)
(*   clmax (1e-3, 0: none)].  Coefficients of drag are in 1e-8, of lift in 1e-5.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Near(a, b, t) == Abs(a - b) <= t
Sum(S, n) == LET F[i \in 0..n] == IF i = 0 THEN 0 ELSE F[i - 1] + S[i] IN F[n]
\* x * a / b without large numbers
MD(x, a, b) == Sgn(x) * ((Abs(x) \div b) * a + ((Abs(x) % b) * a) \div b)
\* the square of a lift coefficient, 1e-5
Sq(x) == LET h == Abs(x) \div 100 IN LET r == Abs(x) % 100 IN (h * h) \div 10 + (2 * h * r) \div 1000
\* a drag area (1e-6 m2) as coefficient (1e-8)
Coef(D, sref) == (D \div sref) * 100 + ((D % sref) * 100) \div sref
Of(K, v, t) == SelectSeq(v.parts, LAMBDA k : K[k].t = t)
Parasite(K, v, p, pylons) ==
  Sum([i \in 1..Len(v.parts) |-> LET k == v.parts[i] IN IF K[k].skip THEN 0
         ELSE K[k].pd[p] + (IF pylons /\ K[k].t = 3 THEN K[k].pd[p] \div 5 ELSE 0)], Len(v.parts))
\* the drag area of one part as it stands in the breakdown
Entry(K, v, k, p) == Coef(K[k].pd[p], v.sref)
Wet(K, v) == LET w == Sum([i \in 1..Len(v.parts) |-> K[v.parts[i]].wet * K[v.parts[i]].n], Len(v.parts)) IN w + w \div 10
\* excrescences: 0.4 (0.0184 + 0.000469 w - 1.13e-7 w2) m2
EsduD(w) == 7360 + ((w \div 10) * 1876) \div 1000 - ((((w \div 100) * (w \div 100)) \div 1000) * 452) \div 1000
Bases(K, v) == 6000 + Sum([i \in 1..Len(v.parts) |-> IF K[v.parts[i]].t = 3 THEN (K[v.parts[i]].dia * 26180) \div 1000 ELSE 0], Len(v.parts))
\* the largest wing, the first of them
Big(K, v) == LET W == Of(K, v, 1) IN W[CHOOSE i \in 1..Len(W) : \A j \in 1..Len(W) : v.S[W[j]] < v.S[W[i]] \/ (v.S[W[j]] = v.S[W[i]] /\ i <= j)]
\* cl^2 / (pi ar e), 1e-8: 3183 = 1e4 / pi
Polar(cl, ar, e) == LET x == MD(Sq(cl) * 1000, 1000, ar) IN MD(x, 3183, 100 * e)
\* lift of wing w alone cl[i], drag cdi[i] (1e-8), both over its own area; i counts the wings of the vehicle
Viscous(K, v, s, p, i, cl) == MD(MD(Entry(K, v, Of(K, v, 1)[i], p), Sq(cl) \div 10, 10000), s.kv, 100)
InducedW(K, v, s, p, i, cl, cdi) ==
  MD(Viscous(K, v, s, p, i, cl) + (IF s.span = 0 THEN cdi ELSE Polar(cl, K[Of(K, v, 1)[i]].ar, s.span)), v.S[Of(K, v, 1)[i]], v.sref)
Induced(K, v, s, p, cls, cdis, CL) ==
  IF s.osw > 0 THEN Polar(CL, K[Big(K, v)].ar, s.osw)
  ELSE Sum([i \in 1..Len(cls) |-> InducedW(K, v, s, p, i, cls[i], cdis[i])], Len(cls))
\* lift of the vehicle (1e-5) from that of its wings
Lift(K, v, s, cls) == MD(MD(Sum([i \in 1..Len(cls) |-> IF K[Of(K, v, 1)[i]].vert THEN 0 ELSE cls[i] * v.S[Of(K, v, 1)[i]]], Len(cls)), 1, v.sref), s.flc, 1000)
Trimmed(s, u) == MD(u, s.trim, 1000)
Total(s, t) == MD(t + 100 * (s.inc + s.spoil), 100, 100 + s.ld)
Clip(s, CL) == IF s.clmax > 0 /\ Abs(CL) > 100 * s.clmax THEN Sgn(CL) * 100 * s.clmax ELSE CL
\* changes
Add(v, k) == [v EXCEPT !.parts = Append(@, k)]
Del(v, k) == [v EXCEPT !.parts = SelectSeq(@, LAMBDA x : x # k)]
Area(v, k, a) == [v EXCEPT !.S[k] = a]
Sref(v, a) == [v EXCEPT !.sref = a]
=============================================================================
