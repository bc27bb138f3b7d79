------------------------------- MODULE Region -------------------------------
(***************************************************************************)
(* A region: its ring, the holes inside it and its seed points, as a value *)
(* [ring, holes, seeds, idx], and what each operation makes of it.  idx is *)
(* the order of the vertices of the ring, as a polygon.                    *)
(***************************************************************************)
EXTENDS Planar

Trivial(n) == [i \in 1..n |-> i - 1]
NewRegion(pts) == [ring |-> pts, holes |-> <<>>, seeds |-> <<>>, idx |-> Trivial(Len(pts))]
DomainOf(R) == [ring |-> R.ring, holes |-> R.holes]

\* A seed is kept when it is in the ring or on it, and neither in a hole nor on one.
Keeps(R, s) == /\ InsideRing(R.ring, s) \/ OnRing(R.ring, s, 0)
               /\ \A i \in 1..Len(R.holes) : ~InsideRing(R.holes[i], s) /\ ~OnRing(R.holes[i], s, 0)
\* A seed is so near to an edge, without being on it, that rounding decides whether it is kept.
Marginal(R, s) ==
  \/ OnRing(R.ring, s, 4 * T) /\ ~OnRing(R.ring, s, 0)
  \/ \E i \in 1..Len(R.holes) : OnRing(R.holes[i], s, 4 * T) /\ ~OnRing(R.holes[i], s, 0)
Kept(R, seeds) == SelectSeq(seeds, LAMBDA s : Keeps(R, s))
AddSeeds(R, pts) == [R EXCEPT !.seeds = Kept(R, R.seeds \o pts)]
CleanSeeds(R) == [R EXCEPT !.seeds = <<>>]
CleanHoles(R) == [R EXCEPT !.holes = <<>>]
Mutate(R, pts) == [R EXCEPT !.ring = pts, !.idx = Trivial(Len(pts))]
\* The ring in the order of the polygon.
RingOf(R) == [i \in 1..Len(R.idx) |-> R.ring[R.idx[i] + 1]]

-----------------------------------------------------------------------------
\* Holes.  A hole and the ring are simple polygons in general position: they are disjoint,
\* nested, or cross transversally away from their vertices.

Side(A, i) == <<A[i], Next1(A, i)>>
CrossPairs(A, B) == {ij \in (1..Len(A)) \X (1..Len(B)) :
                       Crossing(A[ij[1]], Next1(A, ij[1]), B[ij[2]], Next1(B, ij[2]), 4 * T)}
GeneralPosition(A, B) ==
  /\ \A i \in 1..Len(A) : ~OnRing(B, A[i], 4 * T)
  /\ \A i \in 1..Len(B) : ~OnRing(A, B[i], 4 * T)
  /\ \A i \in 1..Len(A) : \A j \in 1..Len(B) :
       Touching(A[i], Next1(A, i), B[j], Next1(B, j), 0) => <<i, j>> \in CrossPairs(A, B)
NestedIn(A, B) == CrossPairs(A, B) = {} /\ \A i \in 1..Len(A) : InsideRing(B, A[i])
Apart(A, B) == /\ CrossPairs(A, B) = {}
               /\ \A i \in 1..Len(A) : ~InsideRing(B, A[i])
               /\ \A i \in 1..Len(B) : ~InsideRing(A, B[i])

\* The crossings of two rings: [i, j, x], side i of A, side j of B, and the point.
Crossings(A, B) == {[i |-> ij[1], j |-> ij[2], x |-> CrossPoint(A[ij[1]], Next1(A, ij[1]), B[ij[2]], Next1(B, ij[2]))] :
                       ij \in CrossPairs(A, B)}
AlongA(A, S) == SetToSortSeq(S, LAMBDA u, v : u.i < v.i \/ (u.i = v.i /\ Before(A[u.i], Next1(A, u.i), u.x, v.x, 0)))
AlongB(B, S) == SetToSortSeq(S, LAMBDA u, v : u.j < v.j \/ (u.j = v.j /\ Before(B[u.j], Next1(B, u.j), u.x, v.x, 0)))
IndexIn(s, e) == CHOOSE k \in 1..Len(s) : s[k] = e

\* The pieces that are left of A without B, one for each cycle of the walk that follows A outside
\* of B and B, backwards, inside of A (A and B counter-clockwise).
Pieces(A, B) ==
  LET S == Crossings(A, B)
      sa == AlongA(A, S)
      sb == AlongB(B, S)
      \* A leaves B at u: the end of its side is to the right of the side of B
      exits == {u \in S : Orient(B[u.j], Next1(B, u.j), Next1(A, u.i)) < 0}
      NextExit(u) == LET y == Next1(sa, IndexIn(sa, u)) IN Prev1(sb, IndexIn(sb, y))
      orbit[n \in 0..Cardinality(S)] == [u \in exits |-> IF n = 0 THEN {u} ELSE orbit[n - 1][u] \cup {NextExit(w) : w \in orbit[n - 1][u]}]
  IN  Cardinality({orbit[Cardinality(S)][u] : u \in exits})

\* What adding the hole H does to R: "inside", "outside", "cuts" or "refused".
HoleCase(R, H0) ==
  LET A == CCW(R.ring)  H == CCW(H0) IN
  IF CrossPairs(A, H) = {} THEN
     IF NestedIn(H, A) THEN "inside" ELSE IF NestedIn(A, H) THEN "refused" ELSE "outside"
  ELSE IF Pieces(A, H) = 1 THEN "cuts" ELSE "refused"

\* The same ring, wherever it starts, with or without vertices in the middle of a side.
SameShape(a, b) ==
  LET x == Simplify(CCW(a))  y == Simplify(CCW(b)) IN
  /\ Len(x) = Len(y)
  /\ \E k \in 0..(Len(x) - 1) : \A i \in 1..Len(x) : Close(x[i], y[((i - 1 + k) % Len(x)) + 1], T)

\* A region that is cut goes through Clipper, which rounds the coordinates to 1e-5, and
\* so moves a crossing by a few times as much.
TH == 128
\* new is the boundary of the ring A without the hole H.
CutFaults(A0, H0, new0) ==
  LET A == CCW(Simplify(A0))  H == CCW(Simplify(H0))
      new == CCW(Simplify(new0))
      wA == {v \in Range(A) : ~InsideRing(H, v)}
      wH == {v \in Range(H) : InsideRing(A, v)}
      wX == {c.x : c \in Crossings(A, H)}
      all == wA \cup wH \cup wX
      Along(d, r) == \E s \in RingEdges(r) : /\ OnSeg(s[1], s[2], d[1], TH) /\ OnSeg(s[1], s[2], d[2], TH)
                                              /\ Before(s[1], s[2], d[1], d[2], 0)
      mid(d) == MidPt(d[1], d[2])
  IN  If(\A v \in all : \E i \in 1..Len(new) : Close(new[i], v, TH), "a vertex of the cut region is missing")
      \cup If(\A i \in 1..Len(new) : \E v \in all : Close(new[i], v, TH), "a vertex that is neither a vertex left nor a crossing")
      \cup If(Len(new) = Cardinality(all), "the cut region has repeated vertices")
      \cup If(\A d \in RingEdges(new) :
                 /\ Along(d, A) \/ Along(d, Reverse(H))
                 /\ InsideRing(A, mid(d)) \/ OnRing(A, mid(d), TH)
                 /\ ~InsideRing(H, mid(d)) \/ OnRing(H, mid(d), TH), "a side of the cut region is not on the boundary of the difference")
      \cup If(SimpleRing(new), "the cut region is not simple")
=============================================================================
