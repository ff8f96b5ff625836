------------------------------- MODULE WingMC -------------------------------
EXTENDS Wing, Json
CONSTANTS N, Emit
VARIABLES w, w0, hist
Wings == {[semi |-> 100000, sym |-> y, vert |-> v, st |-> <<[e |-> 0, c |-> 40000, q |-> q, d |-> d, t |-> 120], [e |-> 10000, c |-> c, q |-> 0, d |-> 0, t |-> 100]>>]
          : y \in BOOLEAN, v \in BOOLEAN, q \in {0, 500}, d \in {0, 100}, c \in {40000, 16000}}
Init == w \in Wings /\ w0 = w /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
Next ==
  /\ Len(hist) < N /\ UNCHANGED w0
  /\ \/ \E i \in 1..P(w), e \in {2500, 5000} : w.st[i].e < e /\ e < w.st[i + 1].e /\ w' = Split(w, i, e) /\ Op([op |-> "split", i |-> i, e |-> e])
     \/ \E i \in 2..P(w) : w' = Drop(w, i) /\ Op([op |-> "drop", i |-> i])
     \/ w' = Mirror(w) /\ Op([op |-> "mirror"])
     \/ w.semi < 400000 /\ w' = Stretch(w, 2) /\ Op([op |-> "stretch", k |-> 2])
     \/ w.st[1].c < 80000 /\ w' = Grow(w, 2) /\ Op([op |-> "grow", k |-> 2])
Spec == Init /\ [][Next]_<<w, w0, hist>>
Close(a, b) == Near(a, b, 8 + Abs(b) \div 10000)
Same(x, y) == /\ Close(S(x), S(y)) /\ Close(Mac(x), Mac(y)) /\ Close(TanLe(x), TanLe(y)) /\ Close(TanQ(x), TanQ(y)) /\ Close(True(x), True(y))
              /\ Close(Length(x), Length(y)) /\ Close(Tc(x), Tc(y)) /\ Close(Wet(x), Wet(y)) /\ \A k \in 1..3 : Close(Ac(x)[k], Ac(y)[k])
\* a station more says nothing new about the wing
Describes == \A i \in 1..P(w) : LET e == (w.st[i].e + w.st[i + 1].e) \div 2 IN Same(Split(w, i, e), w)
\* both sides are twice one side, of the same chords
Sided == LET m == Mirror(w) IN Close(S(m) * Sides(w), S(w) * Sides(m)) /\ Close(Mac(m), Mac(w)) /\ TanLe(m) = TanLe(w) /\ Close(Wet(m) * Sides(w), Wet(w) * Sides(m)) /\ Ac(m)[1] = Ac(w)[1]
\* twice as large: lengths double, areas fourfold, shapes stay
Scaled == LET b == Grow(Stretch(w, 2), 2) IN Close(S(b), 4 * S(w)) /\ Close(Mac(b), 2 * Mac(w)) /\ Close(TanLe(b), TanLe(w)) /\ AR(b) = AR(w) /\ Close(Wet(b), 4 * Wet(w)) /\ \A k \in 1..3 : Close(Ac(b)[k], 2 * Ac(w)[k])
\* what must be between what
Bounds == /\ \A i \in 1..P(w) : A(w, i) > 0 /\ Where(w, i) <= 50000
          /\ Mac(w) >= Mgc(w) - 8 /\ Wet(w) >= 2 * S(w) /\ True(w) >= Span(w) - 8
          /\ \A x \in 1..P(w) : Mac(w) <= w.st[1].c + 8
\* movable surfaces in pieces: together the whole, none over another
Whole == \A a \in {0, 1000, 2500}, b \in {3000, 5000, 10000} : LET s == [a |-> a, b |-> b] IN
  /\ Sum([i \in 1..P(w) |-> IF i \in Pieces(w, s) THEN Piece(w, s, i)[2] - Piece(w, s, i)[1] ELSE 0], P(w)) = b - a
  /\ \A i \in Pieces(w, s) : Piece(w, s, i)[1] >= w.st[i].e /\ Piece(w, s, i)[2] <= w.st[i + 1].e
\* covered by the body: less skin, never less than none
Covered == \A o \in {0, 5000, 10000} : ExpP(w, 1, o) <= A(w, 1) /\ ExpP(w, 1, o) > 0 /\ Near(ExpP(w, 1, 0), A(w, 1), 1)
GenPrint == (Emit /\ Len(hist) = N) => PrintT("HIST" \o ToJson([w0 |-> w0, h |-> hist]))
=============================================================================
