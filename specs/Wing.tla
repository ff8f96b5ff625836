-------------------------------- MODULE Wing --------------------------------
(* C14. A wing has one shape, however it is described.                                             *)
(* A wing: [semi: root to tip, sym, vert, root: root chord, st: stations from root to tip, each     *)
(*   [e: where along the semi span (1e-4), c: chord, q: tangent of the quarter chord sweep of the    *)
(*   panel outboard of it, d: tangent of its dihedral (both 1e-3), t: its thickness (1e-3 chord)]].    *)
(* Lengths in 0.1 mm, areas in cm2, tangents and ratios that come out in 1e-5.                       *)
(* A movable surface: [a, b: from, to (1e-4 semi span)].                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Near(a, b, t) == Abs(a - b) <= t
Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF a < b THEN a ELSE b
Sum(S, n) == LET F[i \in 0..n] == IF i = 0 THEN 0 ELSE F[i - 1] + S[i] IN F[n]
\* a * b / c by long division, digit after digit of a in base 100 (b up to 1e7, c up to 2e7)
MulDiv(a, b, c) ==
  LET x == Abs(a)  D == <<x \div 100000000, (x \div 1000000) % 100, (x \div 10000) % 100, (x \div 100) % 100, x % 100>>
      y == Abs(b)
      F[i \in 0..5] == IF i = 0 THEN <<0, 0>>
                       ELSE LET f == F[i - 1]  w == f[2] * 100 + D[i] * (y % c) IN <<f[1] * 100 + D[i] * (y \div c) + w \div c, w % c>>
  IN Sgn(a) * Sgn(b) * F[5][1]
Sqrt(x) == LET R[k \in 0..20] == IF k = 0 THEN x \div 10000 + 1 ELSE LET r == R[k - 1] IN (r + x \div r) \div 2 IN R[12]
P(w) == Len(w.st) - 1                                    \* panels
Sides(w) == IF w.sym THEN 2 ELSE 1
L(w, i) == MulDiv(w.st[i + 1].e - w.st[i].e, w.semi, 10000)
A(w, i) == MulDiv(L(w, i), w.st[i].c + w.st[i + 1].c, 20000)
Half(w) == Sum([i \in 1..P(w) |-> A(w, i)], P(w))
S(w) == Sides(w) * Half(w)
Span(w) == Sides(w) * w.semi
AR(w) == MulDiv(MulDiv(Span(w), Span(w), 10000), 1000, S(w))          \* 1e-3
Taper(w) == MulDiv(w.st[P(w) + 1].c, 100000, w.st[1].c)
Mgc(w) == MulDiv(S(w), 10000, Span(w))
\* mean aerodynamic chord of one panel, and where along the panel it stands (1e-5)
MacP(w, i) == LET a == w.st[i].c  b == w.st[i + 1].c IN (2 * (a + b - MulDiv(a, b, a + b))) \div 3
Where(w, i) == LET a == w.st[i].c  b == w.st[i + 1].c IN MulDiv(100000, a + 2 * b, 3 * (a + b))
Mean(w, f) == Sum([i \in 1..P(w) |-> MulDiv(f[i], A(w, i), Half(w))], P(w))
Mac(w) == Mean(w, [i \in 1..P(w) |-> MacP(w, i)])
\* leading edge of station k behind, and its height above, those of the root
LeP(w, i) == MulDiv(L(w, i), w.st[i].q, 1000) + (w.st[i].c - w.st[i + 1].c) \div 4
Le(w, k) == Sum([i \in 1..(k - 1) |-> LeP(w, i)], k - 1)
Out(w, k) == Sum([i \in 1..(k - 1) |-> L(w, i)], k - 1)
Up(w, k) == Sum([i \in 1..(k - 1) |-> MulDiv(L(w, i), w.st[i].d, 1000)], k - 1)
TanLe(w) == MulDiv(Le(w, P(w) + 1), 100000, w.semi)
TanQ(w) == MulDiv(Le(w, P(w) + 1) - (w.st[1].c - w.st[P(w) + 1].c) \div 4, 100000, w.semi)
Length(w) == Le(w, P(w) + 1) + w.st[P(w) + 1].c
True(w) == Sides(w) * Sum([i \in 1..P(w) |-> MulDiv(L(w, i), Sqrt(100000000 + 100 * w.st[i].d * w.st[i].d), 10000)], P(w))
\* panel by panel the quarter chord point of its mean chord, and the mean of those
X(w) == Mean(w, [i \in 1..P(w) |-> Le(w, i) + MulDiv(LeP(w, i), Where(w, i), 100000)]) + Mac(w) \div 4
Y(w) == Mean(w, [i \in 1..P(w) |-> Out(w, i) + MulDiv(L(w, i), Where(w, i), 100000)])
Z(w) == Mean(w, [i \in 1..P(w) |-> Up(w, i) + MulDiv(MulDiv(L(w, i), Where(w, i), 100000), w.st[i].d, 1000)])
\* the aerodynamic centre: a mirrored wing has it in its middle, a fin stands upright
Ac(w) == LET p == IF w.vert THEN <<X(w), Z(w), Y(w)>> ELSE <<X(w), Y(w), Z(w)>> IN IF w.sym THEN [p EXCEPT ![2] = 0] ELSE p
Tc(w) == Mean(w, [i \in 1..P(w) |-> 100 * w.st[i].t])                   \* 1e-5
\* skin: both faces of every panel of both sides, a fifth of the thickness longer than flat
Wet(w) == Sides(w) * Sum([i \in 1..P(w) |-> MulDiv(A(w, i), 2 * (5000 + w.st[i].t), 5000)], P(w))
\* ---- exposed panels: o inboard covered by the body
ExpP(w, i, o) ==
  IF i > 1 THEN A(w, i)
  ELSE LET c == w.st[1].c + MulDiv(o, w.st[2].c - w.st[1].c, L(w, 1)) IN MulDiv(L(w, 1) - o, c + w.st[2].c, 20000)
WetE(x, t) == IF t < 5000 THEN MulDiv(x, 2003, 1000) ELSE MulDiv(x, 197700 + (52 * t) \div 100, 100000)      \* t in 1e-5
\* ---- descriptions of the same shape, and of others
Mid(w, i, e, f) == LET a == w.st[i]  b == w.st[i + 1] IN f[1] + MulDiv(f[2] - f[1], e - a.e, b.e - a.e)
Split(w, i, e) ==
  LET n == [w.st[i] EXCEPT !.e = e, !.c = Mid(w, i, e, <<w.st[i].c, w.st[i + 1].c>>)]
  IN [w EXCEPT !.st = SubSeq(@, 1, i) \o <<n>> \o SubSeq(@, i + 1, Len(@))]
Drop(w, i) == [w EXCEPT !.st = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Mirror(w) == [w EXCEPT !.sym = ~@]
Stretch(w, k) == [w EXCEPT !.semi = k * @]
Grow(w, k) == [w EXCEPT !.st = [i \in 1..Len(@) |-> [@[i] EXCEPT !.c = k * @]]]
\* ---- movable surfaces: the pieces of them that lie on each panel
Piece(w, s, i) == <<Max(s.a, w.st[i].e), Min(s.b, w.st[i + 1].e)>>
Pieces(w, s) == {i \in 1..P(w) : Piece(w, s, i)[1] < Piece(w, s, i)[2]}
\* ---- chord at a distance y from the root of a wing with straight edges, and back
ChordAt(w, y) == w.st[1].c + MulDiv(w.st[2].c - w.st[1].c, y, w.semi)
\* ---- a body: seats rows and both ends
Cabin(b) == MulDiv(b.seats, b.pitch, b.abreast) + b.fore + b.aft
Total(b) == Cabin(b) + MulDiv(b.nose + b.tail, b.width, 1000)
=============================================================================
