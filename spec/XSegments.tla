------------------------------ MODULE XSegments ------------------------------
(***************************************************************************)
(* Restricted segments between lattice points of small domains, one or two *)
(* at a time: in the inside, along sides, through corners, seeds and each  *)
(* other, touching and overlapping each other.                             *)
(***************************************************************************)
EXTENDS Planar, Scripts
CONSTANTS Shapes, MaxSegs, SeedChoices

U == 1048576
Domain(s) ==
  CASE s = "square" -> [ring |-> <<<<0, 0>>, <<3, 0>>, <<3, 3>>, <<0, 3>>>>, holes |-> <<>>]
    [] s = "ell" -> [ring |-> <<<<0, 0>>, <<0, 3>>, <<1, 3>>, <<1, 1>>, <<3, 1>>, <<3, 0>>>>, holes |-> <<>>]
    [] s = "notch" -> [ring |-> <<<<0, 0>>, <<2, 1>>, <<4, 0>>, <<4, 3>>, <<0, 3>>>>, holes |-> <<>>]
    [] s = "holed" -> [ring |-> <<<<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>>>>, holes |-> <<<<<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 1>>>>>>]
AllShapes == {"square", "ell", "notch", "holed"}
AllSeeds == {<<>>, <<<<1, 2>>, <<2, 1>>>>, <<<<2, 2>>>>}
OneSeed == {<<<<1, 2>>, <<2, 1>>>>}

\* Everything four times as large, so that there are lattice points between.
Big(r) == [i \in 1..Len(r) |-> <<4 * r[i][1], 4 * r[i][2]>>]
D4(s) == [ring |-> Big(Domain(s).ring), holes |-> [i \in 1..Len(Domain(s).holes) |-> Big(Domain(s).holes[i])]]
Points4(s) == {<<4 * x, 4 * y>> : x, y \in 0..4}
\* In the domain from end to end: it crosses no side, and its quarters and the points between them are in the domain.
Within(s, a, b) ==
  LET D == D4(s) IN
  /\ InDomain(D, a, 0) /\ InDomain(D, b, 0)
  /\ \A d \in Sides(D) : ~Crossing(a, b, d[1], d[2], 0)
  /\ \A k \in 0..24 : LET v == <<a[1] * 24 + (b[1] - a[1]) * k, a[2] * 24 + (b[2] - a[2]) * k>>
                          E == [ring |-> [i \in 1..Len(D.ring) |-> <<24 * D.ring[i][1], 24 * D.ring[i][2]>>],
                                holes |-> [h \in 1..Len(D.holes) |-> [i \in 1..Len(D.holes[h]) |-> <<24 * D.holes[h][i][1], 24 * D.holes[h][i][2]>>]]]
                      IN  InDomain(E, v, 0)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Candidates == [s \in Shapes |-> {<<p, q>> \in Points4(s) \X Points4(s) : Less(p, q) /\ Within(s, p, q)}]

VARIABLES shape, seeds, segs
vars == <<shape, seeds, segs>>
\* Some segments are given backwards.
Given(s, i) == IF (s[1][1] + s[2][2] + i) % 8 < 4 THEN s ELSE <<s[2], s[1]>>
SegText == Words(<<Num(Len(segs'))>> \o [i \in 1..Len(segs') |-> LET g == Given(segs'[i], i) IN
              PtText(<<g[1][1] * (U \div 4), g[1][2] * (U \div 4)>>) \o " " \o PtText(<<g[2][1] * (U \div 4), g[2][2] * (U \div 4)>>)])
Text == LET D == Domain(shape') IN
  <<"rg_new R " \o PtsText(D.ring, U)>> \o [i \in 1..Len(D.holes) |-> "rg_phole R " \o PtsText(D.holes[i], U)]
  \o <<"rg_addseeds R " \o PtsText(seeds', U), "gen G R", "restricted G A " \o SegText>>
Init == shape \in Shapes /\ seeds \in SeedChoices /\ segs = <<>>
Next == /\ Len(segs) < MaxSegs /\ shape' = shape /\ seeds' = seeds
        /\ \E s \in Candidates[shape] : (IF segs = <<>> THEN TRUE ELSE LET l == segs[Len(segs)] IN Less(l[1], s[1]) \/ (l[1] = s[1] /\ Less(l[2], s[2]))) /\ segs' = Append(segs, s)
        /\ Emit(Text)
Spec == Init /\ [][Next]_vars
=============================================================================
