----------------------------- MODULE Propulsion -----------------------------
(* C12. Energy networks: what several engines, propellers or whole networks deliver together.   *)
(* U[kind][slot][p]: what one engine alone delivers at flight state p, evaluated by itself:       *)
(*   <<thrust x, thrust z, mass rate, power drawn, additional fuel rate, shaft power>>                *)
(* (slot: the place of the engine in its network, which decides the column of the state it sees). *)
(* A group: [kinds, n, same, num, den, lin]: engines 1..n of kinds, or n times the first one when  *)
(* same; num/den: total it was sized for over the engines it was sized with (1/1: not sized);       *)
(* full[p]: the state p at full throttle.  A network: [groups, gain (panel), load (W)].             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Abs(a - b) <= t
Sum(S, n) == LET F[i \in 0..n] == IF i = 0 THEN 0 ELSE F[i - 1] + S[i] IN F[n]
Scaled(g, x) == IF g.num = g.den THEN x ELSE LET h == (x \div 100) * g.num IN (h \div g.den) * 100 + ((h % g.den) * 100 + (x % 100) * g.num) \div g.den
\* quantity q of one group at state p
Group(U, g, p, q) ==
  IF g.same THEN g.n * Scaled(g, U[g.kinds[1]][1][p][q])
  ELSE Sum([j \in 1..g.n |-> Scaled(g, U[g.kinds[j]][j][p][q])], g.n)
\* panel and loads count as power drawn (4) only
Net(U, flux, net, p, q) ==
  Sum([k \in 1..Len(net.groups) |-> Group(U, net.groups[k], p, q)], Len(net.groups))
  + (IF q = 4 THEN net.load - (flux[p] * net.gain) \div 1000 ELSE 0)
\* one engine fails, the others at full throttle
Out(U, full, g, p, q) == (Group(U, g, full[p], q) * (g.n - 1)) \div g.n
\* several networks together
All(U, flux, nets, p, q) == Sum([i \in 1..Len(nets) |-> Net(U, flux, nets[i], p, q)], Len(nets))
\* changes
SetN(net, k, n) == [net EXCEPT !.groups[k].n = n]
SetSame(net, k, b) == [net EXCEPT !.groups[k].same = b]
Swap(net, k, j, kind) == [net EXCEPT !.groups[k].kinds[j] = kind]
Size(net, tot) == [net EXCEPT !.groups[1].num = tot, !.groups[1].den = 100 * net.groups[1].n]
=============================================================================
