-------------------------------- MODULE Nexus --------------------------------
(* C07/C08. An optimisation problem: design variables reach the data through       *)
(* aliases, results are cached, objective and constraints are scaled.              *)
(* st: cfg  configurations, sequence of <<name, <<<<leaf, int>>, ...>>>>            *)
(*     sum  the other variables, sequence of <<leaf, int>>                          *)
(*     inp  rows [n, val, lo, hi, sc, un];  al  <<name, paths>> (path: segments)    *)
(*     obj  [n, sc, un];  con  rows [n, s, e, sc, un]                               *)
(*     fid, force, hard;  res  results [a, b];  key  <<>> or <<inputs, fidelity>>   *)
(*     cnt  evaluations so far                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dom(s) == {s[i][1] : i \in 1..Len(s)}
Ix(s, k) == CHOOSE i \in 1..Len(s) : s[i][1] = k
PutKv(s, k, x) == IF k \in Dom(s) THEN [s EXCEPT ![Ix(s, k)][2] = x] ELSE Append(s, <<k, x>>)
GetKv(s, k) == s[Ix(s, k)][2]

\* ---- aliases ----
Aliases(st, nm) == SelectSeq(st.al, LAMBDA a : a[1] = nm)
\* write x at a path: <<"sum", leaf>>, <<"cfg", configuration, leaf>>; "*" stands for every configuration
Write(st, p, x) ==
  IF p[1] = "sum" THEN [st EXCEPT !.sum = PutKv(@, p[2], x)]
  ELSE [st EXCEPT !.cfg = [i \in 1..Len(@) |-> IF p[2] = "*" \/ @[i][1] = p[2] THEN <<@[i][1], PutKv(@[i][2], p[3], x)>> ELSE @[i]]]
RECURSIVE WriteAll(_, _, _)
WriteAll(st, ps, x) == IF ps = <<>> THEN st ELSE WriteAll(Write(st, Head(ps), x), Tail(ps), x)
RECURSIVE WriteAl(_, _, _)
WriteAl(st, as, x) == IF as = <<>> THEN st ELSE WriteAl(WriteAll(st, Head(as)[2], x), Tail(as), x)
RECURSIVE WriteInputs(_, _)
WriteInputs(st, i) == IF i > Len(st.inp) THEN st
  ELSE WriteInputs(WriteAl(st, Aliases(st, st.inp[i].n), st.inp[i].val * st.inp[i].un), i + 1)

Clip(r) == [r EXCEPT !.val = IF @ < r.lo THEN r.lo ELSE IF @ > r.hi THEN r.hi ELSE @]
\* -> [st, ok]
Unpack(st, x) ==
  LET s1 == IF x = <<>> THEN st ELSE [st EXCEPT !.inp = [i \in 1..Len(@) |-> [@[i] EXCEPT !.val = x[i] * st.inp[i].sc]]]
      s2 == IF s1.hard THEN [s1 EXCEPT !.inp = [i \in 1..Len(@) |-> Clip(@[i])]] ELSE s1
  IN IF \E i \in 1..Len(s2.inp) : Aliases(s2, s2.inp[i].n) = <<>> THEN [st |-> s2, ok |-> FALSE]
     ELSE [st |-> WriteInputs(s2, 1), ok |-> TRUE]

\* ---- the procedure: three steps, the second fails when p = 13 ----
RECURSIVE Wsum(_, _, _)
Wsum(cfg, leaf, i) == IF i > Len(cfg) THEN 0
  ELSE (IF leaf \in Dom(cfg[i][2]) THEN i * GetKv(cfg[i][2], leaf) ELSE 0) + Wsum(cfg, leaf, i + 1)
P(st) == GetKv(st.sum, "p")
Q(st) == GetKv(st.sum, "q")
StepA(st) == 80 * (P(st) + 2 * Q(st) * st.fid + Wsum(st.cfg, "v", 1))
StepB(st, a) == 80 * (Q(st) * Q(st) - Wsum(st.cfg, "w", 1)) + a
Procedure(st) ==
  LET a == StepA(st) s0 == [st EXCEPT !.cnt = @ + 1, !.key = <<>>, !.res.a = a] IN
  IF P(st) = 13 THEN [st |-> s0, ok |-> FALSE]
  ELSE [st |-> [s0 EXCEPT !.res.b = StepB(st, a), !.key = <<st.inp, st.fid>>], ok |-> TRUE]
Evaluate(st, x) ==
  LET u == Unpack(st, x) IN
  IF ~u.ok THEN u
  ELSE IF u.st.key = <<u.st.inp, u.st.fid>> /\ ~u.st.force THEN u
  ELSE Procedure(u.st)

\* ---- outputs: names resolve through their first alias, to one place ----
Known(st, nm) == Aliases(st, nm) # <<>> /\ LET a == Aliases(st, nm)[1] IN Len(a[2]) = 1 /\ a[2][1][1] \in {"res", "sum"}
Value(st, nm) == LET p == Aliases(st, nm)[1][2][1] IN
  IF p[1] = "sum" THEN GetKv(st.sum, p[2]) ELSE IF p[2] = "a" THEN st.res.a ELSE st.res.b
\* values are chosen divisible, in thousandths to keep fractions
Scaled(x, d) == (x * 1000) \div d
Rows(st, which) == SelectSeq(st.con, LAMBDA r : CASE which = "eq" -> r.s = "=" [] which = "ineq" -> r.s # "=" [] OTHER -> TRUE)
Residual(st, r) == LET g == Scaled(Value(st, r.n) - r.e * r.un, r.sc) IN IF r.s = "<" THEN 0 - g ELSE g
Outputs(st, op) ==
  CASE op = "obj" -> <<Scaled(Value(st, st.obj.n), st.obj.sc * st.obj.un)>>
    [] op = "eval" -> <<>>
    [] op = "all" -> [i \in 1..Len(st.con) |-> Scaled(Value(st, st.con[i].n), st.con[i].sc)]
    [] op = "table" -> [i \in 1..Len(st.con) |-> Scaled(Value(st, st.con[i].n), st.con[i].un)]
    [] OTHER -> LET rs == Rows(st, op) IN [i \in 1..Len(rs) |-> Residual(st, rs[i])]
Wanted(st, op) == CASE op = "obj" -> {st.obj.n} [] op = "eval" -> {}
  [] op = "table" -> {st.obj.n} \cup {st.con[i].n : i \in 1..Len(st.con)}
  [] OTHER -> {Rows(st, op)[i].n : i \in 1..Len(Rows(st, op))}

R(st, ok, out) == [st |-> st, ok |-> ok, out |-> out]
Ask(st, op, x) ==
  LET v == Evaluate(st, x) IN
  IF ~v.ok \/ (\E n \in Wanted(st, op) : ~Known(v.st, n)) THEN R(v.st, FALSE, <<>>)
  ELSE R(v.st, TRUE, Outputs(v.st, op))

\* finite differences: objective and all constraints at x, then at every x + h e_i in turn
RECURSIVE FD(_, _, _, _, _, _)
FD(st, x, h, i, o0, acc) ==
  IF i > Len(x) THEN R(st, TRUE, acc)
  ELSE LET nx == [x EXCEPT ![i] = @ + h]
           a == Ask(st, "obj", nx)
           b == Ask(a.st, "all", nx)
       IN IF ~a.ok \/ ~b.ok THEN R(IF a.ok THEN b.st ELSE a.st, FALSE, <<>>)
          ELSE FD(b.st, x, h, i + 1, o0, acc \o [j \in 1..(1 + Len(b.out)) |-> ((IF j = 1 THEN a.out[1] ELSE b.out[j - 1]) - o0[j]) \div h])
FiniteDiff(st, x, h) == LET a == Ask(st, "obj", x) b == Ask(a.st, "all", x) IN
  IF ~a.ok \/ ~b.ok THEN R(IF a.ok THEN b.st ELSE a.st, FALSE, <<>>)
  ELSE FD(b.st, x, h, 1, a.out \o b.out, <<>>)

NStep(st, e) ==
  CASE e.op \in {"obj", "ineq", "eq", "all", "eval", "table"} -> Ask(st, e.op, e.x)
    [] e.op = "fd" -> FiniteDiff(st, e.x, e.h)
    [] e.op = "input" -> R([st EXCEPT !.inp[e.i].val = e.h], TRUE, <<>>)
    [] e.op = "fidelity" -> R([st EXCEPT !.fid = e.h], TRUE, <<>>)
    [] e.op = "force" -> R([st EXCEPT !.force = (e.h = 1)], TRUE, <<>>)
    [] e.op = "hard" -> R([st EXCEPT !.hard = (e.h = 1)], TRUE, <<>>)
    [] e.op = "poke" -> R(Write(st, e.p, e.h), TRUE, <<>>)
    [] e.op = "config" -> R([st EXCEPT !.cfg = Append(@, <<e.p[1], <<<<"v", e.h>>, <<"w", e.h>>>>>>)], TRUE, <<>>)
=============================================================================
