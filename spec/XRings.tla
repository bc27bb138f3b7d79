------------------------------- MODULE XRings --------------------------------
(***************************************************************************)
(* Every simple polygon with up to MaxN corners on a lattice of W x H      *)
(* points, from its least corner on in both directions, and, as lists that *)
(* are to be refused or accepted, every list of as many different points.  *)
(* What: "ask" the quantities and predicates, "where" the points of a      *)
(* finer lattice are, "tri" triangulate it, "simple" make it.              *)
(***************************************************************************)
EXTENDS Planar, Scripts
CONSTANTS What, W, H, MaxN

U == 1048576
Grid == (0..(W - 1)) \X (0..(H - 1))
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

VARIABLES r, done
vars == <<r, done>>
Init == r = <<>> /\ done = FALSE

N == Len(r)
Ops == <<"clockwise", "convex", "area", "signed", "centroid", "average", "diameter", "longest", "selfint", "sides", "points", "fixccw", "signed", "clockwise", "centroid", "convex", "area", "points">>
AskText == <<"pts L " \o PtsText(r, U), "polyp P L">> \o [i \in 1..Len(Ops) |-> "ask P L " \o Ops[i]]
           \o <<"edges P -1 " \o Num(N), "pts K " \o PtsText(Reverse(r), U \div 2), "pmut P K", "ask P K area", "ask P K signed", "ask P K centroid", "ask P K diameter", "ask P K clockwise">>
\* the points of a lattice twice as fine, and around it
Fine == LET k == 2 * W + 1 IN [i \in 1..(k * (2 * H + 1)) |-> <<((i - 1) % k) - 1, ((i - 1) \div k) - 1>>]
WhereText == LET b == PtsText([i \in 1..N |-> <<2 * r[i][1], 2 * r[i][2]>>], U \div 2) \o " " \o PtsText(Fine, U \div 2)
             IN  <<"where polygon " \o b, "where hole " \o b, "where region " \o b, "rg_new R " \o PtsText(r, U), "rg_where R " \o PtsText(Fine, U \div 2)>>
Idx == Words([i \in 1..N |-> Num(i)])
TriText == <<"pts L " \o PtsText(<<<<9, 9>>>> \o r \o <<<<-9, 9>>>>, U)>>
           \o [i \in 1..3 |-> Words(<<"ptri", <<"ear", "delaunay", "center">>[i], "L", Num(N), Idx>>)]
SimpleText == LET b == PtsText(r, U) IN
  <<"psimple polygon " \o b, "psimple hole " \o b, "psimple region " \o b, "psimple query " \o b, "psimple mutate " \o b, "psimple regionmutate " \o b>>

\* A prefix of a simple polygon: its sides do not meet.
Prefix == \A i \in 1..(N - 1) : \A j \in (i + 1)..(N - 1) :
            IF j = i + 1 THEN ~OnSeg(r[i], r[i + 1], r[j + 1], 0) /\ ~OnSeg(r[j], r[j + 1], r[i], 0)
            ELSE ~Touching(r[i], r[i + 1], r[j], r[j + 1], 0)
Grow == /\ ~done /\ N < MaxN
        /\ \E p \in Grid : p \notin Range(r) /\ (N > 0 => Less(r[1], p)) /\ r' = Append(r, p)
        /\ done' = FALSE
Close1 == /\ ~done /\ N >= 3 /\ done' = TRUE /\ r' = r
          /\ IF What = "simple" THEN Area2Sign(r) # 0 /\ Emit(SimpleText)
             ELSE SimpleRing(r) /\ Emit(CASE What = "ask" -> AskText [] What = "where" -> WhereText [] What = "tri" -> TriText)
Next == (What = "simple" \/ Prefix) /\ (Grow \/ Close1)
Spec == Init /\ [][Next]_vars

\* The spec's own operators agree on every simple polygon: a point off the sides is inside exactly if the
\* counter-clockwise polygon winds around it, that is, if the triangles from it to the sides, with their
\* signs, do not cancel; and the sides of r are the boundary of the point set that InsideRing defines.
Winding(v) == LET F[i \in 0..N] == IF i = 0 THEN 0 ELSE F[i - 1] +
                    LET a == r[i]  b == Next1(r, i) IN
                    IF a[2] * 4 <= v[2] /\ b[2] * 4 > v[2] /\ Orient(<<4 * a[1], 4 * a[2]>>, <<4 * b[1], 4 * b[2]>>, v) > 0 THEN 1
                    ELSE IF b[2] * 4 <= v[2] /\ a[2] * 4 > v[2] /\ Orient(<<4 * a[1], 4 * a[2]>>, <<4 * b[1], 4 * b[2]>>, v) < 0 THEN -1 ELSE 0
              IN  F[N]
Four == [i \in 1..N |-> <<4 * r[i][1], 4 * r[i][2]>>]
Agree == done /\ What # "simple" => \A x \in 0..(4 * W - 4) : \A y \in 0..(4 * H - 4) :
           LET v == <<x, y>> IN ~OnRing(Four, v, 0) =>
             /\ Winding(v) = IF InsideRing(Four, v) THEN Area2Sign(r) ELSE 0
             /\ InsideRing(Four, v) = InsideRing(Reverse(Four), v)
             \* a ray to the right meets the sides an odd number of times
             /\ InsideRing(Four, v) <=> InsideRing([i \in 1..N |-> <<Four[i][2], Four[i][1]>>], <<y, x>>)
=============================================================================
