------------------------------ MODULE SelfTest -------------------------------
(***************************************************************************)
(* The operators of module Exact, which TLC evaluates with unbounded       *)
(* integers, against their definitions in module ExactRef, on all          *)
(* quadruples of points with coordinates in Coords and tolerances in Tols. *)
(* The numbers are small enough for TLC's own integers.                    *)
(***************************************************************************)
EXTENDS Exact, FiniteSets, TLC
CONSTANTS Coords, Tols
WideCoords == {-4, 0, 1, 16}

VARIABLES q, t
AbsOf(x) == IF x < 0 THEN -x ELSE x
Points == Coords \X Coords
Init == q \in [1..2 -> Points] /\ t \in Tols
Next == Len(q) = 2 /\ \E x, y \in Points : q' = q \o <<x, y>> /\ t' = t
Spec == Init /\ [][Next]_<<q, t>>

a == q[1]
b == q[2]
c == q[3]
d == q[4]
tri == <<a, b, c>>
quad == <<a, b, c, d>>
W(x) == IF x < 0 THEN <<-1, 0, 0, -x>> ELSE <<1, 0, 0, x>>
Wides == {W(x) : x \in {-9, -1, 0, 1, 5, 12}}

Predicates == Len(q) = 4 =>
  /\ Close(a, b, t) = Ref!Close(a, b, t)
  /\ Orient(a, b, c) = Ref!Orient(a, b, c)
  /\ OrientT(a, b, c, t) = Ref!OrientT(a, b, c, t)
  /\ OnSeg(a, b, c, t) = Ref!OnSeg(a, b, c, t)
  /\ InsideCircle(a, b, c, d, t) = Ref!InsideCircle(a, b, c, d, t)
  /\ Obtuse(a, b, c, t) = Ref!Obtuse(a, b, c, t)
  /\ Nearer(a, b, c, t) = Ref!Nearer(a, b, c, t)
  /\ Before(a, b, c, d, t) = Ref!Before(a, b, c, d, t)
  /\ DistCmp(a, b, c, d) = Ref!DistCmp(a, b, c, d)
Segments == Len(q) = 4 =>
  /\ Crossing(a, b, c, d, t) = Ref!Crossing(a, b, c, d, t)
  /\ Touching(a, b, c, d, t) = Ref!Touching(a, b, c, d, t)
  /\ (b[1] - a[1]) * (d[2] - c[2]) # (b[2] - a[2]) * (d[1] - c[1]) =>
       /\ IsCommonPoint(a, b, c, d, <<t, 1>>, t) = Ref!IsCommonPoint(a, b, c, d, <<t, 1>>, t)
       /\ CrossPoint(a, b, c, d) = Ref!CrossPoint(a, b, c, d)
Rings == Len(q) = 4 =>
  /\ Area2Sign(tri) = Ref!Area2Sign(tri) /\ Area2Sign(quad) = Ref!Area2Sign(quad)
  /\ InsideRing(tri, d) = Ref!InsideRing(tri, d)
  /\ OnRing(tri, d, t) = Ref!OnRing(tri, d, t)
  /\ OnRing(quad, <<1, 1>>, t) = Ref!OnRing(quad, <<1, 1>>, t)
  /\ InsideRing(quad, <<1, 1>>) = Ref!InsideRing(quad, <<1, 1>>)
  /\ SameArea(<<tri>>, <<quad>>, t) = Ref!SameArea(<<tri>>, <<quad>>, t)
  /\ SameArea(<<tri, quad>>, <<>>, t) = Ref!SameArea(<<tri, quad>>, <<>>, t)
  /\ MeanIs(quad, <<1, t>>, t) = Ref!MeanIs(quad, <<1, t>>, t)
  /\ Ref!Area2(quad) # 0 => CentroidIs(quad, <<1, t>>, t) = Ref!CentroidIs(quad, <<1, t>>, t)
  /\ \A w \in Wides : /\ Area2Is(quad, w, t) = Ref!Area2Is(quad, w, t)
                      /\ DistIs(a, b, w, 3, t) = Ref!DistIs(a, b, w, 3, t)
Numbers == Len(q) = 4 =>
  /\ MulDiv(a[1], b[1] * 77, 1 + t) = Ref!MulDiv(a[1], b[1] * 77, 1 + t)
  /\ Scale(a[1], b[1], 2) = Ref!Scale(a[1], b[1], 2)
  /\ Scale(a[1], b[1], -3) = Ref!Scale(a[1], b[1], -3)
  \* 2^60 times x in a wide number is x * 2^0 in its highest digit
  /\ LET x == AbsOf(a[1])  y == AbsOf(b[2]) IN
       DecimalIs(<<1, 0, 0, x>>, 1, <<1, y, 0, 0>>) <=> 2 * AbsOf(x - 10 * y) <= 1
  /\ LET x == AbsOf(a[1])  y == AbsOf(b[2]) IN
       DecimalNear(<<1, 0, 0, x>>, 0, <<1, y, 0, 0>>, 1) <=> 2 * AbsOf(x - y) <= y


\* Without tolerance, the predicates do not depend on the scale, however large the products become.
K == 70000001
S(p) == <<p[1] * K - 123456789, p[2] * K + 77777777>>
Homogeneous == Len(q) = 4 =>
  /\ Orient(a, b, c) = Orient(S(a), S(b), S(c))
  /\ OnSeg(a, b, c, 0) = OnSeg(S(a), S(b), S(c), 0)
  /\ InsideCircle(a, b, c, d, 0) = InsideCircle(S(a), S(b), S(c), S(d), 0)
  /\ Obtuse(a, b, c, 0) = Obtuse(S(a), S(b), S(c), 0)
  /\ Nearer(a, b, c, 0) = Nearer(S(a), S(b), S(c), 0)
  /\ Before(a, b, c, d, 0) = Before(S(a), S(b), S(c), S(d), 0)
  /\ DistCmp(a, b, c, d) = DistCmp(S(a), S(b), S(c), S(d))
  /\ Crossing(a, b, c, d, 0) = Crossing(S(a), S(b), S(c), S(d), 0)
  /\ Touching(a, b, c, d, 0) = Touching(S(a), S(b), S(c), S(d), 0)
  /\ InsideRing(tri, d) = InsideRing(<<S(a), S(b), S(c)>>, S(d))
  /\ OnRing(tri, d, 0) = OnRing(<<S(a), S(b), S(c)>>, S(d), 0)
  /\ Area2Sign(quad) = Area2Sign(<<S(a), S(b), S(c), S(d)>>)

\* What is known about sines: Turn(a, n, d) is a sin(2 pi n / d).
Sines ==
  /\ Turn(1000, 1, 4) = 1000 /\ Turn(1000, 1, 12) = 500 /\ Turn(1000, 1, 2) = 0 /\ Turn(1000, 3, 4) = -1000
  /\ \A n \in 1..23 : /\ AbsOf(Turn(1000, n, 24) + Turn(1000, n + 12, 24)) <= 1
                      /\ LET s == Turn(1000, n, 24)  k == Turn(1000, n + 6, 24) IN AbsOf(s * s + k * k - 1000000) <= 3000
                      \* x = n * 2^40 / 2^44 = n / 16: sin(pi * 2 * n / 16)
                      /\ AbsOf(Wave(1000, 2, n, 4, 0) - Turn(1000, n, 16)) <= 1
                      /\ AbsOf(Wave(1000, 2, n, 4, 90 * 64) - Turn(1000, n + 4, 16)) <= 1
ASSUME Sines
=============================================================================
