------------------------------ MODULE FlightMC ------------------------------
(* Every mission of up to N catalogue segments, edited and flown again.            *)
EXTENDS Flight, Json
CONSTANTS N, Emit
VARIABLES segs, flown, hist
Blank == [kind |-> "", dn |-> FALSE, a0 |-> None, a1 |-> 0, v |-> 0, w |-> 0, r |-> 1, d |-> 0, T |-> 0, s |-> 3, c |-> 4,
          cx |-> 5, cy |-> 0, dT |-> 0, p0 |-> 0, p1 |-> 0, gx |-> 0]
Catalogue == <<
  [Blank EXCEPT !.kind = "vR", !.a0 = 0, !.a1 = 1000, !.v = 100, !.r = 28, !.gx = 96],
  [Blank EXCEPT !.kind = "vR", !.a1 = 2000, !.v = 125, !.r = 35, !.gx = 120, !.cx = 3, !.cy = 4],
  [Blank EXCEPT !.kind = "vR", !.dn = TRUE, !.a1 = 500, !.v = 125, !.r = 35, !.gx = 120],
  [Blank EXCEPT !.kind = "vA", !.a1 = 2500, !.v = 100],
  [Blank EXCEPT !.kind = "vA", !.dn = TRUE, !.a0 = 2500, !.a1 = 1000, !.v = 100, !.s = 4, !.c = 3],
  [Blank EXCEPT !.kind = "vC", !.v = 125, !.d = 10000, !.cx = 0, !.cy = 5],
  [Blank EXCEPT !.kind = "vC", !.a0 = 1500, !.v = 200, !.d = 20000],
  [Blank EXCEPT !.kind = "vW", !.v = 150, !.T = 60, !.cx = 4, !.cy = 3],
  [Blank EXCEPT !.kind = "hov", !.T = 40],
  [Blank EXCEPT !.kind = "hcl", !.dn = TRUE, !.a1 = 250, !.r = 5]>>
RECURSIVE Alts(_, _, _)
Alts(ss, i, alt) == IF i > Len(ss) THEN TRUE ELSE
  LET a == IF ss[i].a0 # None THEN ss[i].a0 ELSE alt IN
  IF i = 1 /\ ss[i].a0 = None THEN FALSE
  ELSE IF ss[i].kind \in Level THEN Alts(ss, i + 1, a)
  ELSE ss[i].a1 # a /\ (ss[i].a1 < a <=> ss[i].dn) /\ Alts(ss, i + 1, ss[i].a1)
Md == 2
RECURSIVE Fly(_, _, _)
Fly(ss, i, pre) == IF i > Len(ss) THEN <<>> ELSE
  LET pts == [k \in 1..3 |-> Nominal(ss[i], pre, 2 * (k - 1), Md)] IN <<pts>> \o Fly(ss, i + 1, pts[3])
World0 == [First EXCEPT !.m = 1000000]
Result(ss) == Fly(ss, 1, World0)
Edits(ss) == {Put(ss, i, "a0", a) : i \in 1..Len(ss), a \in {None, 0, 3000}} \cup
             {Put(ss, i, "T", 80) : i \in {j \in 1..Len(ss) : ss[j].kind \in Loiter}}
Init == segs = <<>> /\ flown = <<>> /\ hist = <<>>
Next ==
  \/ /\ Len(segs) < N /\ flown = <<>> /\ \E i \in 1..Len(Catalogue) : segs' = Append(segs, Catalogue[i]) /\ Alts(segs', 1, 0)
     /\ UNCHANGED <<flown, hist>>
  \/ segs # <<>> /\ flown = <<>> /\ flown' = Result(segs) /\ UNCHANGED segs /\ hist' = <<segs>>
  \/ flown # <<>> /\ Len(hist) = 1 /\ \E ss \in Edits(segs) : ss # segs /\ Alts(ss, 1, 0) /\ segs' = ss /\ flown' = Result(ss) /\ hist' = Append(hist, ss)
Spec == Init /\ [][Next]_<<segs, flown, hist>>
Bound == Len(segs) <= N
Pre(i) == IF i = 1 THEN World0 ELSE End(flown[i - 1])
\* the nominal flight is one the contract accepts, and the contract pins it down
Accepted == \A i \in 1..Len(flown) : Bad(segs[i], Pre(i), flown[i], i = 1, 10000, Md, 0) = {}
Pinned == \A i \in 1..Len(flown) : \A g \in {"t", "R", "alt", "m", "x", "lat"} :
  LET p == [flown[i] EXCEPT ![3] = [@ EXCEPT ![g] = @ + 500]] IN Bad(segs[i], Pre(i), p, i = 1, 10000, Md, 0) # {}
Forward == \A i \in 1..Len(flown) : flown[i][3].t > Pre(i).t /\ flown[i][3].R >= Pre(i).R /\ flown[i][3].m < Pre(i).m
Continuous == \A i \in 2..Len(flown) : flown[i][1].t = Pre(i).t /\ flown[i][1].R = Pre(i).R /\ flown[i][1].m = Pre(i).m
Arrives == \A i \in 1..Len(flown) : segs[i].kind \notin Level => flown[i][3].alt = 100 * segs[i].a1
GenPrint == Emit => (flown = <<>> \/ PrintT("HIST" \o ToJson(hist)))
=============================================================================
