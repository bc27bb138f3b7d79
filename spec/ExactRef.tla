------------------------------ MODULE ExactRef ------------------------------
(***************************************************************************)
(* Exact predicates over points of the integer lattice.  A coordinate n of *)
(* a trace stands for the real number n * 2^-p (p is fixed per scenario),  *)
(* so every double the library returns is rounded to the lattice with an   *)
(* error of at most half a unit; the tolerances t are in lattice units.    *)
(*                                                                         *)
(* These definitions are the meaning of the operators; TLC integers have   *)
(* 32 bits, so module Exact evaluates the same operators with unbounded    *)
(* integers (Exact.java), and SelfTest.tla checks the two against each     *)
(* other wherever 32 bits suffice.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y

\* Both coordinates differ by t at most.
Close(a, b, t) == Abs(a[1] - b[1]) <= t /\ Abs(a[2] - b[2]) <= t

\* Largest coordinate difference between two points.
Span(a, b) == Max(Abs(a[1] - b[1]), Abs(a[2] - b[2]))
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Dot(o, a, b) == (a[1] - o[1]) * (b[1] - o[1]) + (a[2] - o[2]) * (b[2] - o[2])
D2(a, b) == Dot(a, b, b)

\* 1 when a, b, c turn counter-clockwise, -1 clockwise, 0 collinear.
Orient(a, b, c) == Sign(Cross(a, b, c))

\* The turn, when c is further than about t from the line a b, and otherwise 0.
OrientT(a, b, c, t) == IF Abs(Cross(a, b, c)) <= t * Span(a, b) THEN 0 ELSE Sign(Cross(a, b, c))

\* v is on the segment a b, up to t.
OnSeg(a, b, v, t) ==
  /\ v[1] >= Min(a[1], b[1]) - t /\ v[1] <= Max(a[1], b[1]) + t
  /\ v[2] >= Min(a[2], b[2]) - t /\ v[2] <= Max(a[2], b[2]) + t
  /\ Abs(Cross(a, b, v)) <= t * Max(Span(a, b), 1)

\* Twice the determinant that is positive when d is inside the circle through the
\* counter-clockwise triangle a b c.
InCircleDet(a, b, c, d) ==
  LET ax == a[1] - d[1]  ay == a[2] - d[2]
      bx == b[1] - d[1]  by == b[2] - d[2]
      cx == c[1] - d[1]  cy == c[2] - d[2]
      as == ax * ax + ay * ay
      bs == bx * bx + by * by
      cs == cx * cx + cy * cy
  IN  as * (bx * cy - by * cx) - bs * (ax * cy - ay * cx) + cs * (ax * by - ay * bx)

Span4(a, b, c, d) == Max(Max(Span(a, d), Span(b, d)), Max(Span(c, d), Max(Span(a, b), Max(Span(b, c), Span(a, c)))))

\* d is inside the circle through a, b, c by more than what moving every coordinate by t/16
\* can explain (the determinant is a form of degree four in the coordinate differences).
InsideCircle(a, b, c, d, t) ==
  Orient(a, b, c) * InCircleDet(a, b, c, d) > t * Span4(a, b, c, d) * Span4(a, b, c, d) * Span4(a, b, c, d)

\* The angle a o b is obtuse, by more than the tolerance.
Obtuse(a, o, b, t) == Dot(o, a, b) < -(t * (Span(o, a) + Span(o, b)))

\* o is nearer to v than s is, by more than about t.
Nearer(v, s, o, t) == D2(v, s) - D2(v, o) > 2 * t * (Span(v, s) + Span(v, o))

RECURSIVE Area2From(_, _)
Area2From(r, i) == IF i > Len(r) THEN 0
                   ELSE LET a == r[i]  b == r[IF i = Len(r) THEN 1 ELSE i + 1]
                        IN  a[1] * b[2] - a[2] * b[1] + Area2From(r, i + 1)
\* Twice the signed area of a ring of points.
Area2(r) == Area2From(r, 1)
Area2Sign(r) == Sign(Area2(r))

RECURSIVE SumArea2(_, _)
SumArea2(rs, i) == IF i > Len(rs) THEN 0 ELSE Area2(rs[i]) + SumArea2(rs, i + 1)
RECURSIVE PerimFrom(_, _)
PerimFrom(r, i) == IF i > Len(r) THEN 0
                   ELSE Span(r[i], r[IF i = Len(r) THEN 1 ELSE i + 1]) + PerimFrom(r, i + 1)
RECURSIVE SumPerim(_, _)
SumPerim(rs, i) == IF i > Len(rs) THEN 0 ELSE PerimFrom(rs[i], 1) + SumPerim(rs, i + 1)

\* Two families of rings have the same total signed area, up to moving their vertices by t/4.
SameArea(as, bs, t) == Abs(SumArea2(as, 1) - SumArea2(bs, 1)) <= t * (SumPerim(as, 1) + SumPerim(bs, 1))

\* A wide number is <<sign, hi, mid, lo>>, in base 2^30.
Wide(w) == w[1] * ((w[2] * 1073741824 + w[3]) * 1073741824 + w[4])

\* The wide number w is twice the signed area of the ring, up to t units.
Area2Is(r, w, t) == w[1] # 9 /\ Abs(Wide(w) - Area2(r)) <= t

\* The wide number w is k times the distance of a and b, up to t.
DistIs(a, b, w, k, t) ==
  /\ w[1] # 9 /\ Wide(w) >= -t
  /\ LET lo == Max(Wide(w) - t, 0)  hi == Wide(w) + t
     IN  lo * lo <= k * k * D2(a, b) /\ k * k * D2(a, b) <= hi * hi

\* c is the centroid of the ring, up to t units (t < 1/3 of nothing: the ring has an area).
CentroidIs(r, c, t) ==
  LET n == Len(r)
      N(i) == IF i = n THEN 1 ELSE i + 1
      W(i) == r[i][1] * r[N(i)][2] - r[i][2] * r[N(i)][1]
      SX[i \in 0..n] == IF i = 0 THEN 0 ELSE SX[i - 1] + (r[i][1] + r[N(i)][1]) * W(i)
      SY[i \in 0..n] == IF i = 0 THEN 0 ELSE SY[i - 1] + (r[i][2] + r[N(i)][2]) * W(i)
      A == Area2(r)
  IN  A # 0 /\ Abs(c[1] * 3 * A - SX[n]) <= t * 3 * Abs(A) /\ Abs(c[2] * 3 * A - SY[n]) <= t * 3 * Abs(A)

\* The open segments a b and c d cross at one point, inside both, by more than t.
Crossing(a, b, c, d, t) ==
  /\ OrientT(a, b, c, t) * OrientT(a, b, d, t) < 0
  /\ OrientT(c, d, a, t) * OrientT(c, d, b, t) < 0

\* Some point is common to the closed segments a b and c d, up to t.
Touching(a, b, c, d, t) ==
  \/ OnSeg(a, b, c, t) \/ OnSeg(a, b, d, t) \/ OnSeg(c, d, a, t) \/ OnSeg(c, d, b, t)
  \/ (Orient(a, b, c) * Orient(a, b, d) < 0 /\ Orient(c, d, a) * Orient(c, d, b) < 0)

\* v is (up to t) the common point of the lines a b and c d, which are not parallel.
IsCommonPoint(a, b, c, d, v, t) ==
  LET den == (b[1] - a[1]) * (d[2] - c[2]) - (b[2] - a[2]) * (d[1] - c[1])
      num == (c[1] - a[1]) * (d[2] - c[2]) - (c[2] - a[2]) * (d[1] - c[1])
  IN  /\ den # 0
      /\ Abs((v[1] - a[1]) * den - num * (b[1] - a[1])) <= t * Abs(den)
      /\ Abs((v[2] - a[2]) * den - num * (b[2] - a[2])) <= t * Abs(den)

\* The common point of the lines a b and c d, rounded down to the lattice.
CrossPoint(a, b, c, d) ==
  LET den == (b[1] - a[1]) * (d[2] - c[2]) - (b[2] - a[2]) * (d[1] - c[1])
      num == (c[1] - a[1]) * (d[2] - c[2]) - (c[2] - a[2]) * (d[1] - c[1])
      N == IF den < 0 THEN -num ELSE num
      D == Abs(den)
  IN  <<a[1] + (N * (b[1] - a[1])) \div D, a[2] + (N * (b[2] - a[2])) \div D>>

\* The winding parity of a ring around v (v is not on the ring): v is inside.
InsideRing(r, v) ==
  LET n == Len(r)
      N(i) == IF i = n THEN 1 ELSE i + 1
      Hit(i) == LET a == r[i]  b == r[N(i)]
                IN  \/ a[2] <= v[2] /\ b[2] > v[2] /\ Cross(a, b, v) > 0
                    \/ b[2] <= v[2] /\ a[2] > v[2] /\ Cross(a, b, v) < 0
      C[i \in 0..n] == IF i = 0 THEN 0 ELSE C[i - 1] + (IF Hit(i) THEN 1 ELSE 0)
  IN  C[n] % 2 = 1

\* v is on the ring, up to t.
OnRing(r, v, t) == \E i \in 1..Len(r) : OnSeg(r[i], r[IF i = Len(r) THEN 1 ELSE i + 1], v, t)

\* a precedes b along the direction c d, strictly by more than t.
Before(c, d, a, b, t) == (b[1] - a[1]) * (d[1] - c[1]) + (b[2] - a[2]) * (d[2] - c[2]) > t * Span(c, d)
\* x * n / d and x * n / 2^e, rounded down.
MulDiv(a, b, d) == (a * b) \div d
Scale(x, n, e) == IF e >= 0 THEN (x * n) \div (2 ^ e) ELSE x * n * 2 ^ (-e)

\* Compares the distances of a and b, and of c and d.
DistCmp(a, b, c, d) == Sign(D2(a, b) - D2(c, d))

\* c is the average of the points of r, up to t.
MeanIs(r, c, t) ==
  LET S[i \in 0..Len(r)] == IF i = 0 THEN <<0, 0>> ELSE <<S[i - 1][1] + r[i][1], S[i - 1][2] + r[i][2]>>
  IN  /\ Abs(Len(r) * c[1] - S[Len(r)][1]) <= t * Len(r)
      /\ Abs(Len(r) * c[2] - S[Len(r)][2]) <= t * Len(r)

\* The decimal number d / 10^k is the number x / 2^60 rounded to k digits (up to 2^-60).
DecimalIs(d, k, x) == d[1] # 9 /\ x[1] # 9 /\ 2 * Abs(Wide(d) * 2 ^ 60 - Wide(x) * 10 ^ k) <= 2 ^ 60 + 2 * 10 ^ k

\* The decimal number d / 10^k has the first s significant digits of x / 2^60.
DecimalNear(d, k, x, s) == d[1] # 9 /\ x[1] # 9 /\ 2 * 10 ^ (s - 1) * Abs(Wide(d) * 2 ^ 60 - Wide(x) * 10 ^ k) <= Abs(Wide(x)) * 10 ^ k
=============================================================================
