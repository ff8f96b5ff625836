------------------------------ MODULE Decimal ------------------------------
(* Decimal floats [m, e]: m * 10^e with a mantissa of seven digits, or m = 0.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Zero == [m |-> 0, e |-> 0]
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN Zero
              ELSE IF Abs(m) > 9999999 THEN Norm(Sgn(m) * ((Abs(m) + 5) \div 10), e + 1)
              ELSE IF Abs(m) < 1000000 THEN Norm(m * 10, e - 1) ELSE [m |-> m, e |-> e]
\* a * b \div c by long division, digit after digit of a in base 10 (b, c up to 1e8)
Long(a, b, c) ==
  LET D == [k \in 1..8 |-> LET p == <<10000000, 1000000, 100000, 10000, 1000, 100, 10, 1>>[k] IN (a \div p) % 10]
      F[i \in 0..8] == IF i = 0 THEN <<0, 0>>
                       ELSE LET f == F[i - 1]  w == f[2] * 10 + D[i] * (b % c) IN <<f[1] * 10 + D[i] * (b \div c) + w \div c, w % c>>
  IN F[8][1]
Mul(a, b) == IF a.m = 0 \/ b.m = 0 THEN Zero ELSE Norm(Sgn(a.m) * Sgn(b.m) * Long(Abs(a.m), Abs(b.m), 1000000), a.e + b.e + 6)
Div(a, b) == IF a.m = 0 THEN Zero ELSE Norm(Sgn(a.m) * Sgn(b.m) * Long(Abs(a.m), 10000000, Abs(b.m)), a.e - b.e - 7)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN Norm(1, 0) ELSE IF n < 0 THEN Div(Norm(1, 0), Pow(a, -n)) ELSE Mul(a, Pow(a, n - 1))
\* equal to six digits
Same(a, b) == \/ a = b
              \/ a.e = b.e /\ Abs(a.m - b.m) <= 40
              \/ a.e = b.e + 1 /\ a.m \in -1000040..1000040 /\ Abs(a.m * 10 - b.m) <= 400
              \/ b.e = a.e + 1 /\ b.m \in -1000040..1000040 /\ Abs(b.m * 10 - a.m) <= 400
\* equal to five digits
Close(a, b) == \/ a = b
               \/ a.e = b.e /\ Abs(a.m - b.m) <= 100 + Abs(a.m) \div 40000
               \/ a.e = b.e + 1 /\ Abs(a.m) < 1000200 /\ Abs(a.m * 10 - b.m) <= 600
               \/ b.e = a.e + 1 /\ Abs(b.m) < 1000200 /\ Abs(b.m * 10 - a.m) <= 600
Neg(a) == [a EXCEPT !.m = -@]
RECURSIVE Shift(_, _)
Shift(m, k) == IF k = 0 \/ m = 0 THEN m ELSE IF k > 8 THEN 0 ELSE Shift(Sgn(m) * ((Abs(m) + 5) \div 10), k - 1)
\* one digit more than the mantissa while adding
Add(a, b) == IF a.m = 0 THEN b ELSE IF b.m = 0 THEN a
             ELSE IF a.e >= b.e THEN Norm(a.m * 10 + Shift(b.m * 10, a.e - b.e), a.e - 1) ELSE Norm(b.m * 10 + Shift(a.m * 10, b.e - a.e), b.e - 1)
Sub(a, b) == Add(a, Neg(b))
Less(a, b) == Sub(a, b).m < 0
Dec(x) == [m |-> x[1], e |-> x[2]]
\* series: exponential of a, natural logarithm of a number near one
Exp(a) == LET x == Div(a, Norm(16, 0))
              T[i \in 0..8] == IF i = 0 THEN Norm(1, 0) ELSE LET t == T[i - 1] IN Div(Mul(t, x), Norm(i, 0))
              S[i \in 0..8] == IF i = 0 THEN T[0] ELSE LET s == S[i - 1] IN Add(s, T[i])
          IN Pow(S[8], 16)
Ln(a) == LET o == Norm(1, 0)  y == Div(Sub(a, o), Add(a, o))  q == Mul(y, y)
             P[i \in 0..7] == IF i = 0 THEN y ELSE LET p == P[i - 1] IN Mul(p, q)
             S[i \in 0..7] == IF i = 0 THEN y ELSE LET s == S[i - 1] IN Add(s, Div(P[i], Norm(2 * i + 1, 0)))
         IN Mul(Norm(2, 0), S[7])
\* Newton's square root of a positive number
Sqrt(a) == IF a.m <= 0 THEN Zero ELSE
           LET s[i \in 0..7] == IF i = 0 THEN Norm(2000, (a.e + 700) \div 2 - 350) ELSE LET y == s[i - 1] IN Mul(Norm(5, -1), Add(y, Div(a, y))) IN s[7]
=============================================================================
