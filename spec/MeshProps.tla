----------------------------- MODULE MeshProps ------------------------------
(***************************************************************************)
(* What the triangulations and Voronoi diagrams of Delynoi have to be, as  *)
(* sets of faults: the empty set when the mesh is right.  A fault is the   *)
(* pair <<property, description>>.                                         *)
(***************************************************************************)
EXTENDS Planar

Tag(p, S) == {<<p, x>> : x \in S}

-----------------------------------------------------------------------------
\* C01  The triangles tile the domain.
TriangleTiling(m, D) ==
  IF ~WellFormed(m) THEN {"an element with repeated or missing vertices"}
  ELSE If(Len(m.els) > 0, "no elements")
       \cup If(\A e \in 1..Len(m.els) : Len(m.els[e]) = 3 /\ Area2Sign(Ring(m, e)) # 0, "an element that is not a triangle")
       \cup TilingFaults(m, D, Sides(D))

\* C02  The Delaunay criterion.  exempt(e): the edge lies on a restricted segment.
OnSome(segs, a, b) == \E s \in segs : OnSeg(s[1], s[2], a, T) /\ OnSeg(s[1], s[2], b, T)

TC == 64     \* tolerance of the in-circle test (see InsideCircle)
DelaunayFaults(m, segs, conforming) ==
  LET tri == {LET o == Oriented(m, e) IN <<o[1], o[2], o[3]>> : e \in 1..Len(m.els)}
      \* <<a, b, c>>: the side from a to b of a triangle has the vertex c opposite to it
      dirOpp == UNION {{<<t[1], t[2], t[3]>>, <<t[2], t[3], t[1]>>, <<t[3], t[1], t[2]>>} : t \in tri}
      oppf == [d \in {<<q[1], q[2]>> : q \in dirOpp} |-> (CHOOSE q \in dirOpp : q[1] = d[1] /\ q[2] = d[2])[3]]
  IN  If(\A q \in dirOpp :
           LET r == <<q[2], q[1]>>
           IN  (r \in DOMAIN oppf /\ q[1] < q[2])
               => \/ ~InsideCircle(Pt(m, q[1]), Pt(m, q[2]), Pt(m, q[3]), Pt(m, oppf[r]), TC)
                  \/ (~conforming /\ OnSome(segs, Pt(m, q[1]), Pt(m, q[2]))),
         "an edge that is not Delaunay")
      \cup (IF ~conforming THEN {}
            ELSE If(\A q \in dirOpp : <<q[2], q[1]>> \notin DOMAIN oppf
                                       => ~Obtuse(Pt(m, q[1]), Pt(m, q[3]), Pt(m, q[2]), TC),
                    "a circumcenter outside of the domain"))

\* C03  Vertices.  seeds: the input; ends: the ends of the restricted segments.
Fixed(D) == Range(Cat(<<D.ring>> \o D.holes))
NearSome(v, S) == \E s \in S : Close(v, s, T)
VertexFaults(m, D, seeds, segs, conforming) ==
  LET ends == UNION {{s[1], s[2]} : s \in segs}
      P == {Pt(m, i) : i \in 0..(NumPts(m) - 1)}
      want == Fixed(D) \cup ends \cup {s \in Range(seeds) : InDomain(D, s, 0)}
      used == UNION {Range(m.els[e]) : e \in 1..Len(m.els)}
      Allowed(v) == \/ NearSome(v, want)
                    \/ conforming /\ OnBoundary(D, v, T)
                    \/ \E s, u \in segs : IsCommonPoint(s[1], s[2], u[1], u[2], v, T)
                    \/ segs # {} /\ OnBoundary(D, v, T) /\ \E s \in segs : OnSeg(s[1], s[2], v, T)
  IN  If(\A v \in want : NearSome(v, P), "a seed or a domain vertex is missing")
      \cup If(\A v \in P : Allowed(v), "a vertex that was neither given nor allowed to be added")
      \cup If(used = 0..(NumPts(m) - 1), "a point that no element uses")
      \cup If(\A i \in 1..NumPts(m) : \A j \in (i + 1)..NumPts(m) : ~Close(m.pts[i], m.pts[j], 5), "a repeated point")

\* C04  Every restricted segment is a union of edges.
Tiny(s) == Close(s[1], s[2], T)
RestrictedFaults(m, segs) ==
  LET dir == DirEdges(m)
      Along(s) == {e \in dir \cup {<<d[2], d[1]>> : d \in dir} :
                     /\ OnSeg(s[1], s[2], Pt(m, e[1]), T) /\ OnSeg(s[1], s[2], Pt(m, e[2]), T)
                     /\ Before(s[1], s[2], Pt(m, e[1]), Pt(m, e[2]), 0)}
  IN  If(\A s \in segs : Tiny(s) \/ ChainOn(m, s, Along(s)), "a restricted segment is not made of edges")

-----------------------------------------------------------------------------
\* C08  Connectivity: what the maps of a mesh say is what its elements say.
Undirected(e) == IF e[1] < e[2] THEN <<e[1], e[2]>> ELSE <<e[2], e[1]>>
ElSides(m, e) == {Undirected(<<m.els[e][k], Next1(m.els[e], k)>>) : k \in 1..Len(m.els[e])}
Incident(m, u) == {e - 1 : e \in {x \in 1..Len(m.els) : u \in ElSides(m, x)}}
Given(n1, n2) == {n1, n2} \ {-1}
ConnectivityFaults(m) ==
  LET sides == [e \in 1..Len(m.els) |-> ElSides(m, e)]
      all == UNION Range(sides)
      inc == [u \in all |-> {e - 1 : e \in {x \in 1..Len(m.els) : u \in sides[x]}}]
      keys == {Undirected(<<k[1], k[2]>>) : k \in Range(m.edges)}
      pinc == [i \in 0..(NumPts(m) - 1) |-> {e - 1 : e \in {x \in 1..Len(m.els) : i \in Range(m.els[x])}}]
      Right(k) == LET u == Undirected(<<k[1], k[2]>>)
                  IN  u \in all /\ Given(k[3], k[4]) = inc[u] /\ (k[3] # k[4])
  IN  If(keys = all /\ Len(m.edges) = Cardinality(all), "the edges of the mesh are not the sides of its elements")
      \cup If(\A k \in Range(m.edges) : Right(k), "wrong neighbours of an edge")
      \cup If(\A k \in Range(m.look) : Right(k), "an edge looked up in the other direction has other neighbours")
      \cup If(/\ \A k \in Range(m.any) : IF Undirected(<<k[1], k[2]>>) \in all THEN Right(k) ELSE k[3] = -1 /\ k[4] = -1
              /\ m.after = Len(m.edges), "asking for the neighbours of two points that are not an edge finds some, or adds an edge")
      \cup If(/\ Len(m.pmap) = Cardinality({XY(m.pts[i]) : i \in {j \in 1..NumPts(m) : pinc[j - 1] # {}}})
              /\ \A i \in 1..NumPts(m) :
                   pinc[i - 1] # {} =>
                   \E q \in Range(m.pmap) : Close(q[1], m.pts[i], T) /\ Range(q[2]) = pinc[i - 1],
              "wrong elements around a point")

\* Boundary flags of a triangulation.
TriangleFlagFaults(m, D) ==
  If(\A i \in 1..NumPts(m) :
        LET on == OnBoundary(D, XY(m.pts[i]), T) IN (m.pts[i][3] = 1) <=> on,
     "a boundary flag is wrong")

-----------------------------------------------------------------------------
\* Voronoi diagrams.  m: the diagram, t: the triangulation it comes from.

ConvexSites(t) == {Pt(t, i) : i \in 0..(NumPts(t) - 1)}

\* v sees s inside the domain, surely: the segment meets no side except at s, where it may
\* end; if v is on a side, s is on the inner side of it.
Sees(D, v, s) ==
  \A d \in CoarseSides(D) :
     IF OnSeg(d[1], d[2], v, 4 * T) THEN OrientT(d[1], d[2], s, 4 * T) >= 0
     ELSE IF OnSeg(d[1], d[2], s, T) THEN OrientT(d[1], d[2], v, T) > 0
     ELSE ~Touching(v, s, d[1], d[2], T)

CellOwnerSet(m, t, e) ==
  LET r == Ring(m, e) IN {i \in 0..(NumPts(t) - 1) : InsideRing(r, Pt(t, i)) \/ OnRing(r, Pt(t, i), T)}

TV == 64    \* tolerance of the distances (circumcenters are rounded, and merged within the library's tolerance)
\* C06
CellFaults(m, t, D) ==
  LET own == [e \in 1..Len(m.els) |-> CellOwnerSet(m, t, e)]
      sites == 0..(NumPts(t) - 1)
      Bad(e) == \E i \in own[e] : \E k \in 1..Len(m.els[e]) :
                  LET v == Pt(m, m.els[e][k])
                  IN  \E s \in sites : s # i /\ Nearer(v, Pt(t, i), Pt(t, s), TV) /\ Sees(D, v, Pt(t, s))
  IN  If(Len(m.els) = NumPts(t), "not as many cells as vertices of the triangulation")
      \cup If(\A e \in 1..Len(m.els) : Cardinality(own[e]) = 1, "a cell without its site, or with two")
      \cup If(UNION Range(own) = sites, "a site without a cell")
      \cup If(\A e \in 1..Len(m.els) : ~Bad(e), "a part of a cell is nearer to another site")

\* C07
CellTiling(m, D) ==
  IF ~WellFormed(m) THEN {"a cell with repeated or missing vertices"}
  ELSE If(\A e \in 1..Len(m.els) : Area2Sign(Ring(m, e)) > 0, "a cell that is not counter-clockwise")
       \cup If(\A e \in 1..Len(m.els) : SimpleRing(Ring(m, e)), "a cell that is not a simple polygon")
       \cup TilingFaults(m, D, CoarseSides(D))

\* C08, for the vertices of the diagram.
CellFlagFaults(m, t, D) ==
  LET dir == DirEdges(t)
      mids == {MidPt(Pt(t, e[1]), Pt(t, e[2])) : e \in {x \in dir : <<x[2], x[1]>> \notin dir}}
  IN  If(\A i \in 1..NumPts(m) :
           LET v == XY(m.pts[i]) IN
             /\ m.pts[i][3] = 1 => OnBoundary(D, v, T)
             /\ (\E q \in mids : Close(q, v, 2)) => m.pts[i][3] = 1,
         "a boundary flag of the diagram is wrong")
=============================================================================
