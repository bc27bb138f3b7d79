------------------------------ MODULE Polygons ------------------------------
(***************************************************************************)
(* Polygons over lists of points, with their memorised quantities, their   *)
(* predicates, containment and triangulators; segments; convex hulls.      *)
(* C16, C17, C18, C19, C22, C25.                                           *)
(*                                                                         *)
(* State: [lists |-> name -> sequence of points,                           *)
(*         polys |-> name -> [l |-> name of its list, idx |-> indexes]].   *)
(* What a polygon answers is a function of this state alone: the values it *)
(* memorises are not part of it.                                           *)
(***************************************************************************)
EXTENDS Region

PolyInit == [lists |-> <<>>, polys |-> <<>>]
PolyEvents == {"pts", "poly", "polyp", "pcopy", "passign", "pmut", "psimple", "ask", "edges", "pequal", "psame", "pcount", "where", "circum",
               "box", "ptri", "segs", "seg", "angle", "hull"}
PolyProps(cmd) ==
  CASE cmd \in {"poly", "polyp", "pcopy", "passign", "pmut", "ask"} -> {"C16", "C18"}
    [] cmd \in {"psimple", "edges", "pequal", "psame", "pcount"} -> {"C18"}
    [] cmd \in {"where"} -> {"C17"}
    [] cmd = "box" -> {"C17"}
    [] cmd = "circum" -> {"C16", "C18"}
    [] cmd = "ptri" -> {"C19"}
    [] cmd \in {"segs", "seg", "angle"} -> {"C22"}
    [] cmd = "hull" -> {"C25"}
    [] OTHER -> {}

Check(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Maximum(x, y) == IF x > y THEN x ELSE y
SpanOf(a, b) == Maximum(AbsV(a[1] - b[1]), AbsV(a[2] - b[2]))

\* The library takes parameters along a segment up to 1e-5 beyond its ends for parameters of the
\* segment: how far off the points may be, in lattice units.
Slack(a, b, c, d) == T + (SpanOf(a, b) + SpanOf(c, d)) \div 32768
Parallel(a, b, c, d) == Orient(<<0, 0>>, <<b[1] - a[1], b[2] - a[2]>>, <<d[1] - c[1], d[2] - c[2]>>) = 0

\* Pairs of sides without a common vertex.
FarPairs(r) == {ij \in (1..Len(r)) \X (1..Len(r)) : ij[1] + 1 < ij[2] /\ ~(ij[1] = 1 /\ ij[2] = Len(r))}
Distinct(r) == LET idx == [i \in 1..Len(r) |-> IF r[i] # Prev1(r, i) THEN <<r[i]>> ELSE <<>>] IN Cat(idx)
\* Two sides of the list of points surely meet / all sides surely keep apart.
MustRefuse(r0) == LET r == Distinct(r0) IN
  \E p \in FarPairs(r) : LET a == r[p[1]]  b == Next1(r, p[1])  c == r[p[2]]  d == Next1(r, p[2])
                         IN  ~Parallel(a, b, c, d) /\ Touching(a, b, c, d, 0)
MustAccept(r0) == LET r == Distinct(r0) IN
  /\ SimpleRing(r)
  /\ \A p \in FarPairs(r) : LET a == r[p[1]]  b == Next1(r, p[1])  c == r[p[2]]  d == Next1(r, p[2])
                            IN  ~Touching(a, b, c, d, Slack(a, b, c, d))

RingIn(s, q) == [k \in 1..Len(q.idx) |-> s.lists[q.l][q.idx[k] + 1]]
Rotation(a, b) == Len(a) = Len(b) /\ \E k \in 0..(Len(a) - 1) : \A i \in 1..Len(a) : a[i] = b[((i - 1 + k) % Len(a)) + 1]
SameCycle(a, b) == Rotation(a, b) \/ Rotation(Reverse(a), b)
AllIdx(pts) == [i \in 1..Len(pts) |-> i - 1]

-----------------------------------------------------------------------------
\* Making polygons

Pts(s, ev) == [st |-> [s EXCEPT !.lists = Put(s.lists, ev.l, ev.pts)], faults |-> {}]
Stored(s, ev, q) == [st |-> IF ev.thrown = "" THEN [s EXCEPT !.polys = Put(s.polys, ev.q, q)] ELSE s,
                     faults |-> Check("C18", ev.thrown = "" => ev.idx = q.idx, "a polygon does not have the vertices it was made of")
                                \cup Check("C18", MustAccept(RingIn(s, q)) => ev.thrown = "", "a simple polygon is refused")
                                \cup Check("C18", ev.e = "polyp" /\ MustRefuse(RingIn(s, q)) => ev.thrown # "", "a self intersecting polygon is accepted")]
Poly(s, ev) == Stored(s, ev, [l |-> ev.l, idx |-> ev.in])
PolyP(s, ev) == Stored(s, ev, [l |-> ev.l, idx |-> AllIdx(s.lists[ev.l])])
Copied(s, ev) == LET q == s.polys[ev.from] IN
  [st |-> [s EXCEPT !.polys = Put(s.polys, ev.q, q)], faults |-> Check("C18", ev.idx = q.idx, "a copy of a polygon has other vertices")]
\* The quantities of the list ev.l hold for the polygon from here on.
Mutated(s, ev) == LET q == [l |-> ev.l, idx |-> AllIdx(s.lists[ev.l])] IN
  [st |-> [s EXCEPT !.polys = Put(s.polys, ev.q, q)],
   faults |-> Check("C18", ev.idx = q.idx, "a polygon that got new points has other vertices")]

PSimple(s, ev) ==
  [st |-> s, faults |->
     Check("C18", MustAccept(ev.pts) => ev.thrown = "", "a simple list of points is refused (" \o ev.k \o ")")
     \cup Check("C18", MustRefuse(ev.pts) => ev.thrown # "", "a self intersecting list of points is accepted (" \o ev.k \o ")")
     \cup Check("C18", ev.same = 1, "making a polygon changes its points")]

-----------------------------------------------------------------------------
\* Questions

Farthest(S, a, b) == \A c, d \in S : DistCmp(c, d, a, b) <= 0
TA == 1048576       \* tolerance of areas: 1e-6
Turns(r) == {OrientT(Prev1(r, i), r[i], Next1(r, i), 0) : i \in 1..Len(r)}
TurnsT(r) == {OrientT(Prev1(r, i), r[i], Next1(r, i), T) : i \in 1..Len(r)}
SegsIn(idx) == [k \in 1..Len(idx) |-> {idx[k], Next1(idx, k)}]

\* What the question ev.op about the ring r was answered.  The points that r has may be rounded: x = 0 if they
\* are not, and 1 if they are, by half a lattice unit.
AnswerFaults(ev, r, x) ==
  CASE ev.op \in {"area", "signed"} -> Check("C16", Area2Is(r, ev.w, IF x = 0 THEN TA ELSE 1073741824), "the area is wrong")
    [] ev.op = "centroid" -> Check("C16", ev.v[1] # BAD /\ ev.v[2] # BAD /\ CentroidIs(r, ev.v, 4 + 60 * x), "the centroid is wrong")
    [] ev.op = "average" -> Check("C16", ev.v[1] # BAD /\ ev.v[2] # BAD /\ MeanIs(r, ev.v, 2 + x), "the average of the vertices is wrong")
    [] ev.op = "diameter" -> Check("C16", \E a, b \in Range(r) : Farthest(Range(r), a, b) /\ DistIs(a, b, ev.w, 256, 256 + 768 * x), "the diameter is wrong")
    \* the distance of two vertices, which no side exceeds
    [] ev.op = "longest" -> Check("C16", \E a, b \in Range(r) : DistIs(a, b, ev.w, 256, 256 + 768 * x) /\ \A i \in 1..Len(r) : DistCmp(r[i], Next1(r, i), a, b) <= 0, "the largest distance is wrong")
    [] ev.op = "clockwise" -> Check("C18", (ev.b = 1) <=> Area2Sign(r) < 0, "the orientation of a polygon is wrong")
    [] ev.op = "convex" -> Check("C18", IF x = 0 THEN (ev.b = 1) <=> ~({-1, 1} \subseteq Turns(r)) ELSE IF {-1, 1} \subseteq TurnsT(r) THEN ev.b = 0 ELSE Cardinality(TurnsT(r)) > 1 \/ ev.b = 1, "the convexity of a polygon is wrong")
    [] ev.op = "selfint" -> Check("C18", (MustAccept(r) => ev.b = 0) /\ (MustRefuse(r) => ev.b = 1), "whether a polygon intersects itself is wrong")
    [] ev.op = "sides" -> Check("C18", ev.n = Len(r) /\ Len(ev.s) = Len(r) /\ {{e[1], e[2]} : e \in Range(ev.s)} = Range(SegsIn(ev.idx)),
                                "the sides of a polygon are not its pairs of consecutive vertices")
    [] ev.op = "points" -> Check("C18", ev.vs = r, "the points of a polygon are wrong")
    [] OTHER -> {}

\* Reversing keeps the ring; everything else keeps the indexes in their order.
Ask(s, ev) ==
  LET q == s.polys[ev.q]
      w == [q EXCEPT !.idx = ev.idx]
      r == RingIn(s, q)
      own == IF ev.op \in {"area", "signed", "centroid", "average", "diameter", "longest"} THEN "C16" ELSE "C18"
      ok == Range(ev.idx) \subseteq 0..(Len(s.lists[q.l]) - 1)
  IN  IF ev.op = "fixccw"
      THEN [st |-> IF ok THEN [s EXCEPT !.polys = Put(s.polys, ev.q, w)] ELSE s,
            faults |-> Check("C18", SameCycle(q.idx, ev.idx), "ordering a polygon counter-clockwise changes its ring")
                       \cup Check("C18", ok /\ Area2Sign(RingIn(s, w)) >= 0, "a polygon that was ordered counter-clockwise is clockwise")
                       \cup Check("C18", Area2Sign(r) > 0 => ev.idx = q.idx, "a counter-clockwise polygon is reordered")
                       \cup Check("C18", ev.same = 1, "ordering a polygon changes its points")]
      ELSE [st |-> s,
            faults |-> AnswerFaults(ev, r, 0)
                       \cup Check(own, ev.idx = q.idx /\ ev.same = 1, "asking for the " \o ev.op \o " changes the polygon or its points")]

Edges(s, ev) ==
  LET q == s.polys[ev.q]  I == ev.lo..ev.hi  es == Range(SegsIn(q.idx)) IN
  [st |-> s, faults |->
     Check("C18", Range(ev.es) = {p \in I \X I : p[1] # p[2] /\ {p[1], p[2]} \in es}, "a pair of indexes is wrongly (not) taken for a side")
     \cup Check("C18", Range(ev.vs) = Range(q.idx) \cap I, "an index is wrongly (not) taken for a vertex")]
PEqual(s, ev) ==
  [st |-> s, faults |-> Check("C18", (ev.eq = 1) <=> Range(s.polys[ev.q].idx) = Range(s.polys[ev.o].idx), "polygons are equal that have other vertices, or different with the same")]

\* Polygons of other index lists: equal when they have the same vertices, and otherwise ordered one way.
SameVertices(a, b) == Len(a) = Len(b) /\ Range(a) = Range(b)
PSame(ev) ==
  LET same == SameVertices(ev.a, ev.b) IN
  Check("C18", ev.eq = IF same THEN <<1, 1>> ELSE <<0, 0>>, "polygons are equal that have other vertices, or different with the same")
  \cup Check("C18", ev.lt + ev.gt = IF same THEN 0 ELSE 1, "different polygons are not ordered, or equal ones are")

-----------------------------------------------------------------------------
\* Containment

BoxRing(r) == <<r[1], <<r[2][1], r[1][2]>>, r[2], <<r[1][1], r[2][2]>>>>
Where(s, ev) ==
  LET r == IF ev.k = "box" THEN BoxRing(ev.ring) ELSE ev.ring
      N == 1..Len(ev.at)
      in(i) == InsideRing(r, ev.at[i])
      on(i) == OnRing(r, ev.at[i], 0)
      near(i) == OnRing(r, ev.at[i], T)
      Edge(e) == e[1] # -1 /\ e[2] # -1
      RightEdge(i) == LET e == ev.ce[i] IN
        IF Edge(e) THEN /\ {e[1], e[2]} \in Range(SegsIn(AllIdx(r)))
                        /\ OnSeg(r[e[1] + 1], r[e[2] + 1], ev.at[i], T)
        ELSE e = <<-1, -1>> /\ ~on(i)
  IN  [st |-> s, faults |->
         Check("C17", \A i \in N : (in(i) \/ on(i)) => ev.in[i] = 1, "a point of the " \o ev.k \o " is said to be outside")
         \cup Check("C17", \A i \in N : (~in(i) /\ ~near(i)) => ev.in[i] = 0, "a point outside of the " \o ev.k \o " is said to be inside")
         \cup Check("C17", ev.k \in {"polygon", "region"} => \A i \in N : on(i) => ev.on[i] = 1, "a point on a side of the " \o ev.k \o " is not found there")
         \cup Check("C17", ev.k \in {"polygon", "region"} => \A i \in N : ~near(i) => ev.on[i] = 0, "a point is found on a side of the " \o ev.k \o " where it is not")
         \cup Check("C17", ev.k = "polygon" => \A i \in N : RightEdge(i), "the side that contains a point is wrong")]

Box(s, ev) ==
  LET a == ev.a  b == ev.b
      lo == <<IF a[1] < b[1] THEN a[1] ELSE b[1], IF a[2] < b[2] THEN a[2] ELSE b[2]>>
      hi == <<IF a[1] < b[1] THEN b[1] ELSE a[1], IF a[2] < b[2] THEN b[2] ELSE a[2]>>
  IN  [st |-> s, faults |->
         Check("C17", ev.x = lo \o hi /\ ev.w = hi[1] - lo[1] /\ ev.h = hi[2] - lo[2], "the bounds of a box are wrong")
         \cup Check("C17", {{g[1], g[2]} : g \in Range(ev.segs)} = {{e[1], e[2]} : e \in RingEdges(BoxRing(<<a, b>>))} /\ Len(ev.segs) = 4,
                    "the sides of a box are wrong")
         \cup Check("C17", ev.ends = <<a, b>> /\ ev.eq = <<1, 0>>, "the corners of a box, or its comparison, are wrong")
         \cup Check("C17", ev.in = <<1, 0>>, "a box contains the wrong points")]

\* All three vertices are equally far from the circumcenter.
\* The circumcenters that are collected in lists are found at the positions that the triangles have; a list
\* without duplicates has that of the third triangle already.  third: the vertex that an edge leaves.
Circum(s, ev) ==
  [st |-> s, faults |-> Check("C16", ev.v[1] # BAD /\ ev.v[2] # BAD /\ \A a, b \in Range(ev.pts) : ~Nearer(ev.v, a, b, 4), "a circumcenter is not as far from all vertices")
                        \cup Check("C16", ev.vs = <<ev.v, ev.v, ev.v, ev.v>> /\ ev.at = <<1, 1, 1, 2, 2>>, "the circumcenters in a list are not the ones of the triangles")
                        \cup Check("C18", \A e \in Range(ev.third) : {e[1], e[2], e[3]} = 0..2, "the vertex that is not on an edge of a triangle is wrong")
                        \cup Check("C18", Len(ev.third) = 6 /\ ev.null = <<0, 1>>, "whether a triangle has vertices is wrong")]

-----------------------------------------------------------------------------
\* Triangulators

PTri(s, ev) ==
  LET n == Len(ev.in)
      ring == [k \in 1..n |-> ev.before[ev.in[k] + 1]]
      convex == ~({-1, 1} \subseteq Turns(ring))
      m == [pts |-> ev.after, els |-> ev.els]
      D == [ring |-> ring, holes |-> <<>>]
      added == SubSeq(ev.after, Len(ev.before) + 1, Len(ev.after))
      center == ev.k = "center"
      new == [s EXCEPT !.lists = Put(s.lists, ev.l, ev.after)]
      F(ok, text) == Check("C19", ok, text \o " (" \o ev.k \o ")")
  IN  IF ev.thrown # "" THEN [st |-> new, faults |-> F(center /\ ~convex, "a polygon is refused") \cup F(ev.after = ev.before, "a refused polygon changes the points")]
      ELSE [st |-> new, faults |->
        F(center => convex, "a polygon that is not convex is not refused")
        \cup F(SubSeq(ev.after, 1, Len(ev.before)) = ev.before, "the points are changed")
        \cup F(IF center THEN Len(added) = 1 /\ MeanIs(ring, added[1], 2) ELSE added = <<>>, "the points that are added are wrong")
        \cup F(Len(ev.els) = IF center THEN n ELSE n - 2, "the number of triangles is wrong")
        \cup F(UNION {Range(t) : t \in Range(ev.els)} \subseteq Range(ev.in) \cup (IF center THEN {Len(ev.before)} ELSE {}), "a triangle has other vertices than the polygon")
        \cup (IF ~WellFormed(m) THEN F(FALSE, "a triangle with repeated or missing vertices")
              ELSE F(\A e \in 1..Len(m.els) : Len(m.els[e]) = 3 /\ Area2Sign(Ring(m, e)) # 0, "an element that is not a triangle")
                   \cup {<<"C19", t \o " (" \o ev.k \o ")">> : t \in TilingFaults(m, D, Sides(D))})]

-----------------------------------------------------------------------------
\* Segments

\* The areas that are taken for none (the tolerance of 1e-5), twice over; and segments so short that points off
\* them span no more than that.
Flat(a, b, c) == Area2Is(<<a, b, c>>, <<1, 0, 0, 0>>, 20 * TA)
Short(a, b, v) == SpanOf(a, b) < 262144 /\ SpanOf(a, v) < 262144
SegPairFaults(g) ==
  LET a == g.p[1]  b == g.p[2]  c == g.p[3]  d == g.p[4]
      sl == Slack(a, b, c, d)
      HitOk(h, must, may) == /\ must => h[1] = 1
                             /\ h[1] = 1 => may /\ h[2] # BAD /\ h[3] # BAD /\ IsCommonPoint(a, b, c, d, <<h[2], h[3]>>, 4)
      Off(x, y, v) == ~OnSeg(x, y, v, T) /\ ~(Short(x, y, v) /\ Flat(x, y, v))
      Holds1(x, y, v, said) == (OnSeg(x, y, v, 0) => said = 1) /\ (Off(x, y, v) => said = 0)
      ContainsBoth(x, y, v, w, said) == /\ (OnSeg(x, y, v, 0) /\ OnSeg(x, y, w, 0)) => said = 1
                                        /\ (Off(x, y, v) \/ Off(x, y, w)) => said = 0
      para == Parallel(a, b, c, d)
      touch == Touching(a, b, c, d, 0)
      maytouch == Touching(a, b, c, d, sl)
      F(ok, text) == Check("C22", ok, text)
  IN  F(para \/ HitOk(g.ii, touch, maytouch), "the intersection of two segments by indexes is wrong")
      \cup F(para \/ HitOk(g.ip, touch, maytouch), "the intersection of segments by indexes and by points is wrong")
      \cup F(para \/ g.line = <<>> \/ HitOk(g.line, Orient(c, d, a) * Orient(c, d, b) <= 0, OrientT(c, d, a, 2 * sl) * OrientT(c, d, b, 2 * sl) <= 0), "the intersection of a segment and a line is wrong")
      \cup F(ContainsBoth(a, b, c, d, g.in), "whether a segment contains another one is wrong")
      \cup F(ContainsBoth(c, d, a, b, g.within), "whether a segment is contained in another one is wrong")
      \cup F(Holds1(a, b, c, g.pc[1]) /\ Holds1(a, b, c, g.pc[2]), "whether a segment contains a point is wrong")
      \cup F((g.eq = 1) <=> (Close(a, c, 10) /\ Close(b, d, 10)) \/ (Close(a, d, 10) /\ Close(b, c, 10)), "the comparison of segments is wrong")
      \cup F((Orient(a, b, c) = 0 => g.col = 1) /\ (~Flat(a, b, c) => g.col = 0), "whether points are collinear is wrong")
      \cup F((Orient(a, b, c) = 0 /\ Orient(a, b, d) = 0 => g.cols = 1) /\ (~Flat(a, b, c) \/ ~Flat(a, b, d) => g.cols = 0), "whether segments are collinear is wrong")
Segs(s, ev) == [st |-> s, faults |-> UNION {SegPairFaults(ev.q[k]) : k \in 1..Len(ev.q)}]

\* The direction at x / 2^20 degrees, as a vector of length 2^28.
Direction(x) == <<Turn(268435456, x + 94371840, 377487360), Turn(268435456, x, 377487360)>>
DirectionIs(a, b, x) ==
  LET v == <<b[1] - a[1], b[2] - a[2]>>  u == Direction(x) IN
  OrientT(<<0, 0>>, v, u, 64) = 0 /\ Before(<<0, 0>>, v, <<0, 0>>, u, 0)
Seg(s, ev) ==
  LET a == ev.p[1]  b == ev.p[2]  c == ev.p[3]
      o == Orient(a, b, c)
      F(ok, text) == Check("C22", ok, text)
  IN  [st |-> s, faults |->
     F(\A k \in 1..2 : DistIs(a, b, ev.len[k], 256, 256), "the length of a segment is wrong")
     \cup F(MeanIs(<<a, b>>, ev.mid, 1), "the middle point of a segment is wrong")
     \cup F(\A k \in 1..2 : DirectionIs(a, b, ev.ang[k]), "the angle of a segment is wrong")
     \cup F((ev.ccw = 1) <=> o > 0, "whether a segment is counter-clockwise around a point is wrong")
     \cup F(Area2Is(<<a, b, c>>, ev.a2, TA) /\ Area2Is(<<a, b, c>>, ev.ori, TA), "the orientation of three points is wrong")
     \cup F(Area2Is(<<a, b, c>>, ev.ta, TA) /\ Area2Is(<<a, b, c>>, ev.area, TA), "the area of three points is wrong")
     \cup F(ev.vert = <<1, 1, 0>>, "the ends of a segment are wrong")
     \cup F(IF o > 0 THEN ev.after = <<0, 1>> ELSE IF o < 0 THEN ev.after = <<1, 0>> ELSE ev.after \in {<<0, 1>>, <<1, 0>>}, "a segment is not ordered counter-clockwise")]
Angles(s, ev) ==
  [st |-> s, faults |-> Check("C22", \A i \in 1..Len(ev.in) : ev.out[i] = ev.in[i] % 184320, "an angle is not reduced to the one of its line")
                        \cup Check("C22", \A i \in 1..Len(ev.in) : ev.lt[i][3] = 0 /\ (i > 1 => ev.lt[i][1] = (IF ev.out[i - 1] < ev.out[i] THEN 1 ELSE 0) /\ ev.lt[i][2] = (IF ev.out[i] < ev.out[i - 1] THEN 1 ELSE 0)), "angles are compared wrongly")]

-----------------------------------------------------------------------------
\* Convex hulls

LexLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
ChainFaults(P, ch, turn, name) ==
  LET lo == CHOOSE v \in P : \A w \in P : w = v \/ LexLess(v, w)
      hi == CHOOSE v \in P : \A w \in P : w = v \/ LexLess(w, v)
  IN  Check("C25", Len(ch) >= 2 /\ ch[1] = lo /\ ch[Len(ch)] = hi, "the " \o name \o " chain does not run from the first to the last point")
      \cup Check("C25", Range(ch) \subseteq P, "the " \o name \o " chain has other points")
      \cup Check("C25", \A i \in 1..(Len(ch) - 2) : Orient(ch[i], ch[i + 1], ch[i + 2]) = turn, "the " \o name \o " chain is not strictly convex")
      \cup Check("C25", \A i \in 1..(Len(ch) - 1) : \A v \in P : Orient(ch[i], ch[i + 1], v) * turn >= 0, "a point is outside of the " \o name \o " chain")
Hull(s, ev) ==
  LET P == Range(ev.in)  H == Range(ev.up) \cup Range(ev.lo) IN
  [st |-> s, faults |->
     ChainFaults(P, ev.up, -1, "upper") \cup ChainFaults(P, ev.lo, 1, "lower")
     \cup Check("C25", \A q \in Range(ev.pairs) : q[1] \in H /\ q[2] \in H, "an antipodal pair is not made of points of the hull")
     \cup Check("C25", \E q \in Range(ev.pairs) : Farthest(P, q[1], q[2]), "no antipodal pair is a farthest pair")]

PolyStep(s, ev) ==
  CASE ev.e = "pts" -> Pts(s, ev)
    [] ev.e = "poly" -> Poly(s, ev)
    [] ev.e = "polyp" -> PolyP(s, ev)
    [] ev.e \in {"pcopy", "passign"} -> Copied(s, ev)
    [] ev.e = "pmut" -> Mutated(s, ev)
    [] ev.e = "psimple" -> PSimple(s, ev)
    [] ev.e = "ask" -> Ask(s, ev)
    [] ev.e = "edges" -> Edges(s, ev)
    [] ev.e = "pequal" -> PEqual(s, ev)
    [] ev.e = "psame" -> [st |-> s, faults |-> PSame(ev)]
    [] ev.e = "pcount" -> [st |-> s, faults |-> Check("C18", ev.distinct = (ev.n * (ev.n - 1) * (ev.n - 2)) \div 6, "different triangles are taken for the same")]
    [] ev.e = "where" -> Where(s, ev)
    [] ev.e = "box" -> Box(s, ev)
    [] ev.e = "circum" -> Circum(s, ev)
    [] ev.e = "ptri" -> PTri(s, ev)
    [] ev.e = "segs" -> Segs(s, ev)
    [] ev.e = "seg" -> Seg(s, ev)
    [] ev.e = "angle" -> Angles(s, ev)
    [] ev.e = "hull" -> Hull(s, ev)
=============================================================================
