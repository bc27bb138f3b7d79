------------------------------- MODULE Planar -------------------------------
(***************************************************************************)
(* Domains and planar subdivisions.                                        *)
(*                                                                         *)
(* A ring is a sequence of points.  A domain is a record                   *)
(*    [ring |-> the outer boundary, holes |-> a sequence of rings].        *)
(* A mesh is a record [pts |-> sequence of <<x, y, flag>>,                 *)
(*    els |-> sequence of sequences of 0-based point indexes, ...].        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Exact

\* Tolerance, in lattice units, for points that the library may have moved: the
\* lattice of a mesh scenario has p = 20, so T is 1.5e-5, just over the 1e-5 within
\* which the library takes two points for the same one.
T == 16

BAD == 2000000001       \* a coordinate that was not a number, or out of range

Next1(s, i) == s[IF i = Len(s) THEN 1 ELSE i + 1]
Prev1(s, i) == s[IF i = 1 THEN Len(s) ELSE i - 1]
XY(p) == <<p[1], p[2]>>
AbsV(x) == IF x < 0 THEN -x ELSE x
\* Half way from a to b.
MidPt(a, b) == <<a[1] + (b[1] - a[1]) \div 2, a[2] + (b[2] - a[2]) \div 2>>
CCW(r) == IF Area2Sign(r) < 0 THEN Reverse(r) ELSE r
CW(r) == IF Area2Sign(r) > 0 THEN Reverse(r) ELSE r

RECURSIVE CatFrom(_, _)
CatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatFrom(ss, i + 1)
Cat(ss) == CatFrom(ss, 1)

\* The ring without repeated vertices, nor vertices in the middle of a straight side.
NoRepeats(r) == LET keep(i) == ~Close(r[i], Prev1(r, i), T)
                    idx == [i \in 1..Len(r) |-> IF keep(i) THEN <<r[i]>> ELSE <<>>]
                IN  Cat(idx)
Simplify(r0) == LET r == NoRepeats(r0)
                    idx == [i \in 1..Len(r) |-> IF OrientT(Prev1(r, i), r[i], Next1(r, i), T) # 0 THEN <<r[i]>> ELSE <<>>]
                IN  Cat(idx)

RingEdges(r) == {<<r[i], Next1(r, i)>> : i \in 1..Len(r)}

\* The boundary of a domain as directed sides, the domain on their left.
Sides(D) == RingEdges(CCW(D.ring)) \cup UNION {RingEdges(CW(D.holes[i])) : i \in 1..Len(D.holes)}
CoarseSides(D) == RingEdges(CCW(Simplify(D.ring))) \cup UNION {RingEdges(CW(Simplify(D.holes[i]))) : i \in 1..Len(D.holes)}
DomainRings(D) == <<CCW(D.ring)>> \o [i \in 1..Len(D.holes) |-> CW(D.holes[i])]

OnBoundary(D, v, t) == OnRing(D.ring, v, t) \/ \E i \in 1..Len(D.holes) : OnRing(D.holes[i], v, t)
\* v is strictly inside the domain, further than t from its boundary.
Interior(D, v, t) == /\ InsideRing(D.ring, v)
                     /\ ~OnBoundary(D, v, t)
                     /\ \A i \in 1..Len(D.holes) : ~InsideRing(D.holes[i], v)
\* v is strictly outside the domain, further than t from its boundary.
Exterior(D, v, t) == /\ ~OnBoundary(D, v, t)
                     /\ \/ ~InsideRing(D.ring, v)
                        \/ \E i \in 1..Len(D.holes) : InsideRing(D.holes[i], v)
InDomain(D, v, t) == Interior(D, v, t) \/ OnBoundary(D, v, t)

If(ok, name) == IF ok THEN {} ELSE {name}

-----------------------------------------------------------------------------
\* Meshes

NumPts(m) == Len(m.pts)
Pt(m, i) == XY(m.pts[i + 1])
Ring(m, e) == [k \in 1..Len(m.els[e]) |-> Pt(m, m.els[e][k])]

\* Every element has at least three different vertices, all of them points of the mesh.
WellFormed(m) ==
  /\ \A i \in 1..Len(m.pts) : m.pts[i][1] # BAD /\ m.pts[i][2] # BAD
  /\ \A e \in 1..Len(m.els) :
       /\ Len(m.els[e]) >= 3
       /\ \A k \in 1..Len(m.els[e]) : m.els[e][k] \in 0..(NumPts(m) - 1)
       /\ Cardinality(Range(m.els[e])) = Len(m.els[e])

\* The vertices of an element, counter-clockwise.
Oriented(m, e) == IF Area2Sign(Ring(m, e)) < 0 THEN Reverse(m.els[e]) ELSE m.els[e]
ElDirEdges(m, e) == LET o == Oriented(m, e) IN {<<o[k], Next1(o, k)>> : k \in 1..Len(o)}
DirEdges(m) == UNION {ElDirEdges(m, e) : e \in 1..Len(m.els)}
RECURSIVE SumLen(_, _)
SumLen(ss, i) == IF i > Len(ss) THEN 0 ELSE Len(ss[i]) + SumLen(ss, i + 1)

\* The part of the boundary chain that lies on side d runs from one end to the other without a gap.
ChainOn(m, d, S) ==
  LET starts == {e[1] : e \in S}
      ends == {e[2] : e \in S}
  IN  /\ Cardinality(starts) = Cardinality(S)
      /\ Cardinality(ends) = Cardinality(S)
      /\ Cardinality(starts \ ends) = 1
      /\ Cardinality(ends \ starts) = 1
      /\ \A i \in starts \ ends : Close(Pt(m, i), d[1], T)
      /\ \A i \in ends \ starts : Close(Pt(m, i), d[2], T)

\* The elements, all counter-clockwise, tile the domain with the given sides: every side of an
\* element is shared with exactly one other element that runs along it the other way, or is
\* part of the boundary of the domain, which the sides of the second kind cover exactly.
\* Then every point of the plane is covered as many times as the boundary winds around it.
TilingFaults(m, D, sides) ==
  LET dir == DirEdges(m)
      bnd == {e \in dir : <<e[2], e[1]>> \notin dir}
      OnSide(e, d) == /\ OnSeg(d[1], d[2], Pt(m, e[1]), T)
                      /\ OnSeg(d[1], d[2], Pt(m, e[2]), T)
                      /\ Before(d[1], d[2], Pt(m, e[1]), Pt(m, e[2]), 0)
  IN  If(Cardinality(dir) = SumLen(m.els, 1), "two elements overlap along a side")
      \cup If(\A e \in bnd : \E d \in sides : OnSide(e, d), "an element ends in the inside of the domain or out of it")
      \cup If(\A d \in sides : ChainOn(m, d, {e \in bnd : OnSide(e, d)}), "part of the boundary is not covered")
      \cup If(SameArea([e \in 1..Len(m.els) |-> CCW(Ring(m, e))], DomainRings(D), 4 * T), "the areas do not add up to the area of the domain")

\* Two sides of the ring meet only at the vertex they share.
SimpleRing(r) ==
  LET n == Len(r) IN
  \A i \in 1..n : \A j \in (i + 1)..n :
     LET a == r[i]  b == Next1(r, i)  c == r[j]  d == Next1(r, j)
     IN  IF j = i + 1 THEN ~OnSeg(a, b, d, 0) /\ ~OnSeg(c, d, a, 0)
         ELSE IF j = n /\ i = 1 THEN ~OnSeg(a, b, c, 0) /\ ~OnSeg(c, d, b, 0)
         ELSE ~Touching(a, b, c, d, 0)
=============================================================================
