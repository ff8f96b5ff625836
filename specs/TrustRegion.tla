----------------------------- MODULE TrustRegion -----------------------------
(* C08. Trust region model management with two fidelity levels.                     *)
(* p: vars [lo, hi, sc, ini]; obj <<low, high>> quadratics, osc its scale;           *)
(*    con rows [q <<low, high>>, s, e, sc, un];  ct, et thresholds (hundredths),     *)
(*    cf contraction denominator, ef expansion factor, min, size (sixteenths),       *)
(*    tol, maxit.                                                                    *)
(* st: [x centre, size, it, done, f, msg]                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE QSum(_, _, _)
QSum(q, v, i) == IF i > Len(v) THEN q.c ELSE q.a[i] * v[i] * v[i] + q.b[i] * v[i] + QSum(q, v, i + 1)
Val(p, x) == [i \in 1..Len(x) |-> x[i] * p.vars[i].sc]
F(p, l, x) == QSum(p.obj[l], Val(p, x), 1) \div p.osc
G(p, l, x) == [k \in 1..Len(p.con) |-> QSum(p.con[k].q[l], Val(p, x), 1) \div p.con[k].sc]
Edge(p, k) == (p.con[k].e * p.con[k].un) \div p.con[k].sc
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Up(x, i) == [x EXCEPT ![i] = @ + 1]
\* corrected low-fidelity model around centre c: exact there, with the high-fidelity slope
DF(p, l, c, i) == F(p, l, Up(c, i)) - F(p, l, c)
DG(p, l, c, i) == [k \in 1..Len(p.con) |-> G(p, l, Up(c, i))[k] - G(p, l, c)[k]]
Fc(p, c, x) == F(p, 1, x) + Sum([i \in 1..Len(x) |-> (DF(p, 2, c, i) - DF(p, 1, c, i)) * (x[i] - c[i])]) + F(p, 2, c) - F(p, 1, c)
Gc(p, c, x) == LET g == G(p, 1, x) g1 == G(p, 1, c) g2 == G(p, 2, c)
                   d1 == [i \in 1..Len(x) |-> DG(p, 1, c, i)] d2 == [i \in 1..Len(x) |-> DG(p, 2, c, i)] IN
  [k \in 1..Len(p.con) |-> g[k] + Sum([i \in 1..Len(x) |-> (d2[i][k] - d1[i][k]) * (x[i] - c[i])]) + g2[k] - g1[k]]
Pos(x) == IF x > 0 THEN x ELSE 0
Viol(p, g) == Sum([k \in 1..Len(g) |-> LET lo == Pos(Edge(p, k) - g[k]) up == Pos(g[k] - Edge(p, k)) IN
   CASE p.con[k].s = "<" -> up * up [] p.con[k].s = ">" -> lo * lo [] OTHER -> lo * lo + up * up])
\* residuals handed to the subproblem: non-negative (or zero) exactly when met
Residuals(p, c, x) == LET g == Gc(p, c, x) IN [k \in 1..Len(g) |-> IF p.con[k].s = "<" THEN Edge(p, k) - g[k] ELSE g[k] - Edge(p, k)]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Low(p, st) == [i \in 1..Len(st.x) |-> Max((16 * p.vars[i].lo) \div p.vars[i].sc, 16 * st.x[i] - st.size)]
High(p, st) == [i \in 1..Len(st.x) |-> Min((16 * p.vars[i].hi) \div p.vars[i].sc, 16 * st.x[i] + st.size)]
Inside(p, st, x) == \A i \in 1..Len(x) : Low(p, st)[i] <= 16 * x[i] /\ 16 * x[i] <= High(p, st)[i]

\* possible outcomes of comparing num/den with t hundredths: a tie may go either way (rounding)
Below(num, den, t) == LET a == IF den > 0 THEN 100 * num - t * den ELSE t * den - 100 * num IN
  IF a = 0 THEN {TRUE, FALSE} ELSE {a < 0}
Actions(p, num, den, acc) ==
  IF ~acc THEN {"shrink"}
  ELSE UNION {IF neg THEN {"shrink"} ELSE UNION {IF a THEN {"shrink"} ELSE UNION {IF b THEN {"keep"} ELSE
         {IF g THEN "grow" ELSE "keep" : g \in Below(num, den, 125)} : b \in Below(num, den, p.et)} : a \in Below(num, den, p.ct)}
       : neg \in (IF num = 0 THEN {FALSE} ELSE Below(num, den, 0))}
Resize(p, size, act) == CASE act = "shrink" -> size \div p.cf [] act = "grow" -> size * p.ef [] OTHER -> size
\* the iteration ends with candidate cand; ok: the subproblem was solved.  The set of possible next states.
Judge(p, st, cand, ok) ==
  LET c == st.x
      fc == F(p, 2, c) fh == F(p, 2, cand) fk == Fc(p, c, cand)
      vc == Viol(p, G(p, 2, c)) vh == Viol(p, G(p, 2, cand)) vk == Viol(p, Gc(p, c, cand))
      acc == fh < fc \/ vh < vc
      n0 == (fc + vc) - (fh + vh) d0 == (fc + vc) - (fk + vk)
      num == IF d0 = 0 THEN 1 ELSE n0 den == IF d0 = 0 THEN 1 ELSE d0
      keptx == IF acc THEN cand ELSE c keptf == IF acc THEN fk ELSE fc
  IN { LET size == Resize(p, st.size, act)
           stuck == ~ok /\ act # "grow" /\ cand = c
           conv == acc /\ (IF fc > fh THEN fc - fh ELSE fh - fc) < p.tol
           msg == IF size < p.min THEN "Trust region too small" ELSE IF stuck THEN "Solution infeasible"
                  ELSE IF conv THEN "convergence reached" ELSE IF st.it + 1 = p.maxit THEN "Max iteration limit reached" ELSE ""
       IN [x |-> IF msg = "Solution infeasible" THEN cand ELSE keptx, size |-> size, it |-> st.it + 1, done |-> msg # "",
           f |-> IF msg = "Solution infeasible" \/ acc THEN fk ELSE fc, msg |-> msg]
     : act \in Actions(p, num, den, acc)}
Start(p) == [x |-> [i \in 1..Len(p.vars) |-> p.vars[i].ini \div p.vars[i].sc], size |-> p.size, it |-> 0, done |-> FALSE, f |-> 0, msg |-> ""]
=============================================================================
