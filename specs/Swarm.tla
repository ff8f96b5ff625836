-------------------------------- MODULE Swarm --------------------------------
(* C08. Particle swarm search: which of the evaluated designs is returned.         *)
(* A design is [f, ok (feasible), inb (within bounds), near (designs too close)].   *)
(* s: [S, maxit, minfunc, n, fp, g, fg, done, why, seen]                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Inf == 1000000000
Start(S, maxit, minfunc) == [S |-> S, maxit |-> maxit, minfunc |-> minfunc, n |-> 0,
                             fp |-> [i \in 1..S |-> Inf], g |-> 0, fg |-> Inf, b |-> 0, fb |-> Inf, done |-> maxit = 0 /\ S = 0, why |-> "", seen |-> <<>>]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* one evaluation: the particle whose turn it is arrives at design d (the k-th evaluated)
Eval(s, d) ==
  LET k == s.n + 1
      i == ((k - 1) % s.S) + 1
      first == k <= s.S
      s1 == [s EXCEPT !.n = k, !.seen = Append(@, d)]
      \* the first position counts as a particle's own best even when infeasible
      own == first \/ (d.ok /\ d.f < s.fp[i])
      better == own /\ d.ok /\ d.f < s.fg
      stop == ~first /\ better /\ (Abs(s.fg - d.f) <= s.minfunc \/ s.g \in {d.near[j] : j \in 1..Len(d.near)})
      s2 == IF own THEN [s1 EXCEPT !.fp[i] = d.f] ELSE s1
      s2b == IF d.ok /\ d.f < s.fb THEN [s2 EXCEPT !.b = k, !.fb = d.f] ELSE s2
      s3 == IF better \/ (first /\ k = 1) THEN [s2b EXCEPT !.g = k, !.fg = IF better THEN d.f ELSE @] ELSE s2b
  IN [s3 EXCEPT !.done = stop \/ k = s.S * (s.maxit + 1),
                !.why = IF stop THEN "settled" ELSE IF k = s.S * (s.maxit + 1) THEN "iterations" ELSE ""]
Feasible(s) == {k \in 1..s.n : s.seen[k].ok}
\* what every run guarantees, however the swarm moves
Guarantee(s) == s.done =>
   /\ Feasible(s) # {} => s.b \in Feasible(s) /\ s.fb = s.seen[s.b].f /\ \A k \in Feasible(s) : s.fb <= s.seen[k].f
   /\ Feasible(s) = {} => s.fb = Inf
=============================================================================
