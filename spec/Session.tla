------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* Mesh sessions: a client with named regions, generators and meshes.      *)
(* State st:                                                               *)
(*   regs   name -> region (module Region)                                 *)
(*   gens   name -> [dom, seeds], what the generator was built with        *)
(*   meshes name -> the projection of a mesh that was handed out           *)
(*   memo   <<kind, dom, seeds, segments>> -> the triangles it was answered*)
(* An operator Xxx(st, ev) is the action of the event ev: the next state   *)
(* and the faults, the ways in which what the library did is not what the  *)
(* action allows.                                                          *)
(***************************************************************************)
EXTENDS Region, MeshProps, TLC
PG == INSTANCE Polygons

SessionInit == [regs |-> <<>>, gens |-> <<>>, meshes |-> <<>>, memo |-> <<>>]

Upd(f, k, v) == (k :> v) @@ f
F(p, S) == IF S = {} THEN {} ELSE {<<p, x>> : x \in S}

-----------------------------------------------------------------------------
\* Regions

Observed(ev) == [ring |-> ev.ring, holes |-> [i \in 1..Len(ev.holes) |-> ev.holes[i].pts], seeds |-> ev.seeds, idx |-> ev.idx]
SeqClose(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], t)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
BoxOf(ring) == <<MinOf({v[1] : v \in Range(ring)}), MinOf({v[2] : v \in Range(ring)}),
                 MaxOf({v[1] : v \in Range(ring)}), MaxOf({v[2] : v \in Range(ring)})>>

Loop(n, off) == {<<off + k, off + ((k + 1) % n)>> : k \in 0..(n - 1)}
Back(E) == {<<e[2], e[1]>> : e \in E}
\* The sides of a ring, in the order of its vertices (idx), and of holes of the given sizes: each a cycle, either way around.
RECURSIVE AreLoops(_, _, _)
AreLoops(E, sizes, off) ==
  IF sizes = <<>> THEN E = {}
  ELSE LET n == sizes[1]  mine == {e \in E : e[1] < off + n} IN
       mine \in {Loop(n, off), Back(Loop(n, off))} /\ AreLoops(E \ mine, Tail(sizes), off + n)
SidesOk(segs, idx, sizes) ==
  LET n == Len(idx)  E == {<<e[1], e[2]>> : e \in Range(segs)}  ring == {<<idx[k], idx[(k % n) + 1]>> : k \in 1..n}
      RECURSIVE Sum(_)
      Sum(x) == IF x = <<>> THEN 0 ELSE x[1] + Sum(Tail(x))
  IN  ring \subseteq E /\ AreLoops(E \ ring, sizes, n) /\ Len(segs) = n + Sum(sizes)

\* C13: what a region shows is the straight line graph of its ring and holes.
PslgFaults(ev) ==
  LET R == Observed(ev)
      sizes == [i \in 1..Len(R.holes) |-> Len(R.holes[i])]
  IN  If(SeqClose(ev.rp, Cat(<<R.ring>> \o R.holes), 0), "the points of the region are not its ring and its holes")
      \cup If(SidesOk(ev.segs, ev.idx, sizes),
              "the segments of the region are not the sides of its ring and holes, in their order")
      \cup If(Len(ev.ring) > 0 /\ ev.box = BoxOf(ev.ring), "the bounding box is not the one of the ring")
      \cup If(\A i \in 1..Len(ev.holes) : InsideRing(ev.holes[i].pts, ev.holes[i].c) /\ ~OnRing(ev.holes[i].pts, ev.holes[i].c, 0),
              "the center of a hole is not inside it")

\* The observed region ev is R: its holes (C11), ring (C11 or C13) and seeds (C12).
ShapeFaults(R, ev) ==
  LET O == Observed(ev)
  IN  If(SeqClose(O.ring, R.ring, 0), "the ring changed")
      \cup If(Len(O.holes) = Len(R.holes) /\ \A i \in 1..Len(R.holes) : SeqClose(O.holes[i], R.holes[i], 0), "the holes changed")
      \cup If(O.idx = R.idx, "the order of the vertices of the ring changed")
SeedFaults(want, ev) == If(SeqClose(want, ev.seeds, 0), "the seeds are not the ones that were given and lie in the region, in their order")

\* Next state: what was observed (so that one fault is reported once).
SetReg(st, ev) == [st EXCEPT !.regs = Upd(st.regs, ev.r, Observed(ev))]

RgNew(st, ev) ==
  LET R == NewRegion(ev.in)
  IN  [st |-> SetReg(st, ev), faults |-> F("C13", ShapeFaults(R, ev)) \cup F("C12", SeedFaults(<<>>, ev)) \cup F("C13", PslgFaults(ev))]
\* The region of a polygon: its vertices, in the order of the polygon.
RgPoly(st, ev) ==
  LET R == NewRegion([i \in 1..Len(ev.of) |-> ev.in[ev.of[i] + 1]])
  IN  [st |-> SetReg(st, ev), faults |-> F("C13", ShapeFaults(R, ev)) \cup F("C12", SeedFaults(<<>>, ev)) \cup F("C13", PslgFaults(ev))
                                         \cup F("C18", If(ev.at = ev.of, "a polygon does not have the vertices it was made of"))]
RgSame(st, ev, R) ==
  [st |-> SetReg(st, ev), faults |-> F("C13", ShapeFaults(R, ev)) \cup F("C12", SeedFaults(R.seeds, ev)) \cup F("C13", PslgFaults(ev))]
RgMutate(st, ev) == RgSame(st, ev, Mutate(st.regs[ev.r], ev.in))
RgCleanHoles(st, ev) ==
  LET R == CleanHoles(st.regs[ev.r])
  IN  [st |-> SetReg(st, ev), faults |-> F("C11", ShapeFaults(R, ev)) \cup F("C12", SeedFaults(R.seeds, ev)) \cup F("C13", PslgFaults(ev))]
RgCleanSeeds(st, ev) == RgSame(st, ev, CleanSeeds(st.regs[ev.r]))
RgAddSeeds(st, ev) ==
  LET R == st.regs[ev.r]
      sure == \A s \in Range(R.seeds \o ev.in) : ~Marginal(R, s)
  IN  [st |-> SetReg(st, ev),
       faults |-> F("C13", ShapeFaults(R, ev)) \cup F("C13", PslgFaults(ev))
                  \cup (IF sure THEN F("C12", SeedFaults(AddSeeds(R, ev.in).seeds, ev)) ELSE {})]

\* Several seed files can be given as points that were generated in the box of the region (C12):
\* the first ones are the old seeds, the others are new, and all of them are in the region.
RgGenerate(st, ev) ==
  LET R == st.regs[ev.r]
      all == R.seeds \o ev.grid
      sure == \A s \in Range(all) : ~Marginal(R, s)
  IN  [st |-> SetReg(st, ev),
       faults |-> F("C13", ShapeFaults(R, ev))
                  \cup (IF sure THEN F("C12", SeedFaults(Kept(R, all), ev)) ELSE {})]

HoleFaults(R, ev) ==
  LET A == CCW(R.ring)
      H == CCW(ev.hole.pts)
      O == Observed(ev)
      holesSame == Len(O.holes) = Len(R.holes) /\ \A i \in 1..Len(R.holes) : SeqClose(O.holes[i], R.holes[i], 0)
      hc == HoleCase(R, ev.hole.pts)
  IN  CASE hc = "inside" ->
             If(ev.thrown = "", "a hole inside of the region is refused")
             \cup If(ev.thrown # "" \/ SeqClose(O.ring, R.ring, 0), "a hole inside of the region changed its ring")
             \cup If(ev.thrown # "" \/
                      /\ Len(O.holes) = Len(R.holes) + 1
                      /\ \A i \in 1..Len(R.holes) : SeqClose(O.holes[i], R.holes[i], 0)
                      /\ SeqClose(O.holes[Len(O.holes)], ev.hole.pts, 0), "a hole inside of the region is not in its list")
        [] hc = "outside" ->
             If(ev.thrown = "", "a hole away from the region is refused")
             \cup If(SameShape(O.ring, R.ring) /\ holesSame, "a hole away from the region changed it")
        [] hc = "refused" ->
             If(ev.thrown # "", "a hole that leaves no region, or several pieces, is accepted")
             \cup If(SeqClose(O.ring, R.ring, 0) /\ holesSame, "a refused hole changed the region")
        [] hc = "cuts" ->
             If(ev.thrown = "", "a hole that crosses the boundary is refused")
             \cup If(ev.thrown # "" \/ holesSame, "a hole that crosses the boundary changed the holes")
             \cup (IF ev.thrown # "" THEN {} ELSE CutFaults(R.ring, ev.hole.pts, O.ring))

\* The vertices of a ring that was replaced are in their order.
OrderFaults(R, ev) ==
  LET O == Observed(ev) IN
  If(O.idx = Trivial(Len(O.ring)) \/ (O.idx = R.idx /\ SeqClose(O.ring, R.ring, 0)), "a region lists the vertices of its ring in another order")

RgHole(st, ev) ==
  LET R == st.regs[ev.r]
      clear == GeneralPosition(CCW(R.ring), CCW(ev.hole.pts))
  IN  [st |-> SetReg(st, ev),
       faults |-> (IF clear THEN F("C11", HoleFaults(R, ev)) ELSE {})
                  \cup F("C12", SeedFaults(R.seeds, ev)) \cup F("C13", PslgFaults(ev) \cup OrderFaults(R, ev))
                  \cup F("C13", If("cc" \in DOMAIN ev => Close(ev.hole.c, ev.cc, 1), "a hole does not have the center it was given")
                                \cup If(ev.thrown # "" \/ Len(ev.holes) = Len(R.holes) \/ Close(ev.holes[Len(ev.holes)].c, ev.hole.c, 0), "a hole in a region has another center"))]

\* Questions to a region as a polygon over its own points.  Ordering it counter-clockwise keeps its points.
RgAsk(st, ev) ==
  LET R == st.regs[ev.r]
      r == RingOf(R)
      O == Observed(ev)
      own == IF ev.op \in {"area", "signed", "centroid", "average", "diameter", "longest"} THEN "C16" ELSE "C18"
      same == ev.idx = R.idx
      kept == SeqClose(O.ring, R.ring, 0) /\ Len(O.holes) = Len(R.holes) /\ \A i \in 1..Len(R.holes) : SeqClose(O.holes[i], R.holes[i], 0)
  IN  [st |-> SetReg(st, ev),
       faults |-> F(own, If(kept, "asking a region changes it")) \cup F("C12", SeedFaults(R.seeds, ev)) \cup F("C13", PslgFaults(ev))
         \cup (IF ev.op = "fixccw"
               THEN F("C18", If(PG!SameCycle(R.idx, ev.idx), "ordering a region counter-clockwise changes its ring")
                             \cup If(Range(ev.idx) = 0..(Len(ev.ring) - 1) /\ Area2Sign(RingOf(O)) >= 0, "a region that was ordered counter-clockwise is clockwise")
                             \cup If(Area2Sign(r) > 0 => same, "a counter-clockwise region is reordered"))
               ELSE PG!AnswerFaults(ev, r, 1) \cup F(own, If(same, "asking a region reorders it")))]
RgWhere(st, ev) ==
  LET R == st.regs[ev.r]
      \* points surely on a side, inside, or outside
      N == 1..Len(ev.at)
      in(i) == InsideRing(R.ring, ev.at[i])
      near(i) == OnRing(R.ring, ev.at[i], 4 * T)
  IN  [st |-> SetReg(st, ev),
       faults |-> F("C17", If(\A i \in N : in(i) /\ ~near(i) => ev.in[i] = 1, "a region does not contain a point inside of its ring")
                           \cup If(\A i \in N : ~in(i) /\ ~near(i) => ev.in[i] = 0, "a region contains a point outside of its ring")
                           \cup If(\A i \in N : ~near(i) => ev.on[i] = 0, "a region has a point on its sides that is away from them")
                           \cup If(\A i \in N : ev.at[i] \in Range(R.ring) => ev.in[i] = 1 /\ ev.on[i] = 1, "a region does not have a vertex on its sides"))
                  \cup F("C13", ShapeFaults(R, ev)) \cup F("C12", SeedFaults(R.seeds, ev))]

-----------------------------------------------------------------------------
\* Triangulations

Doms(R, in) == [ring |-> R.ring, holes |-> R.holes]
SegSet(rs) == {<<rs[i][1], rs[i][2]>> : i \in 1..Len(rs)}
TriangleSet(m) == {{Pt(m, i) : i \in Range(m.els[e])} : e \in 1..Len(m.els)}

\* All that must hold of a triangulation m of the domain D.
TriangulationFaults(want, m, D, seeds, segs, conf) ==
  LET ok == WellFormed(m) /\ \A e \in 1..Len(m.els) : Len(m.els[e]) = 3 IN
  (IF "C01" \in want THEN F("C01", TriangleTiling(m, D)) ELSE {})
  \cup (IF ~ok THEN F("C01", {"an element that is not a triangle"})
        ELSE (IF "C02" \in want THEN F("C02", DelaunayFaults(m, segs, conf)) ELSE {})
             \cup (IF "C03" \in want THEN F("C03", VertexFaults(m, D, seeds, segs, conf)) ELSE {})
             \cup (IF "C04" \in want THEN F("C04", RestrictedFaults(m, segs)) ELSE {})
             \cup (IF "C08" \in want THEN F("C08", ConnectivityFaults(m) \cup TriangleFlagFaults(m, D)) ELSE {}))

MemoFaults(st, key, m) ==
  If(key \in DOMAIN st.memo => TriangleSet(m) = st.memo[key], "the same request was answered differently before")
Remember(st, key, m) == [st EXCEPT !.memo = Upd(st.memo, key, TriangleSet(m))]

Gen(st, ev) ==
  [st |-> [st EXCEPT !.gens = Upd(st.gens, ev.g, [dom |-> DomainOf(st.regs[ev.r]), seeds |-> ev.in])], faults |-> {}]

Answer(want, st, ev, kind, segs, conf) ==
  LET g == st.gens[ev.g]
      key == <<kind, g.dom, g.seeds, segs>>
      st2 == IF "C05" \in want /\ WellFormed(ev.del) THEN Remember(st, key, ev.del) ELSE st
  IN  [st |-> IF ev.m = "" \/ ev.m = "-" THEN st2 ELSE [st2 EXCEPT !.meshes = Upd(st2.meshes, ev.m, ev.del)],
       faults |-> TriangulationFaults(want, ev.del, g.dom, g.seeds, segs, conf)
                  \cup (IF "C05" \in want /\ WellFormed(ev.del)
                        THEN F("C05", MemoFaults(st, key, ev.del)
                                      \cup If(VertexFaults(ev.del, g.dom, g.seeds, segs, conf) = {},
                                              "the answer is not a triangulation of what the generator was given")) ELSE {})]
Constrained(want, st, ev) == Answer(want, st, ev, "constrained", {}, FALSE)
Conforming(want, st, ev) == Answer(want, st, ev, "conforming", {}, TRUE)
Restricted(want, st, ev) == Answer(want, st, ev, "constrained", SegSet(ev.rs), FALSE)

\* A mesh that was handed out stays what it was.
Reread(want, st, ev) ==
  [st |-> st, faults |-> IF "C05" \in want THEN F("C05", If(st.meshes[ev.m] = ev.del, "a mesh changed after it was handed out")) ELSE {}]

DiagramOf(want, st, ev, D, in) ==
  LET t == ev.del
      m == ev.vor
      key == <<"conforming", D, in, {}>>
      okT == WellFormed(t) /\ \A e \in 1..Len(t.els) : Len(t.els[e]) = 3
      okM == WellFormed(m)
      st2 == IF "C05" \in want /\ okT THEN Remember(st, key, t) ELSE st
  IN  [st |-> IF ev.m = "" THEN st2 ELSE [st2 EXCEPT !.meshes = Upd(Upd(st2.meshes, ev.m, m), ev.mt, t)],
       faults |-> TriangulationFaults(want, t, D, in, {}, TRUE)
          \cup (IF "C05" \in want /\ okT THEN F("C05", MemoFaults(st, key, t)) ELSE {})
          \cup (IF "C07" \in want THEN F("C07", CellTiling(m, D)) ELSE {})
          \cup (IF ~(okT /\ okM) THEN F("C07", {"a cell with repeated or missing vertices"})
                ELSE (IF "C06" \in want THEN F("C06", CellFaults(m, t, D)) ELSE {})
                     \cup (IF "C08" \in want THEN F("C08", ConnectivityFaults(m) \cup CellFlagFaults(m, t, D)) ELSE {}))]
Voronoi(want, st, ev) == DiagramOf(want, st, ev, DomainOf(st.regs[ev.r]), ev.in)
\* The information that a generator gives for a diagram, and the diagram made of it (a later one, "infovor", has to be the same).
Info(want, st, ev) == DiagramOf(want, st, ev, st.gens[ev.g].dom, st.gens[ev.g].seeds)

-----------------------------------------------------------------------------
SessionEvents == {"rg_new", "rg_poly", "rg_show", "rg_copy", "rg_assign", "rg_mutate", "rg_phole", "rg_rhole", "rg_chole", "rg_cleanholes",
                  "rg_addseeds", "rg_flagseeds", "rg_seedfile", "rg_cleanseeds", "rg_generate", "rg_ask", "rg_where", "gen", "constrained", "conforming", "restricted", "reread", "vreread", "voronoi", "info", "infovor"}
\* The properties a command is judged by: what a crash, or an exception, of it violates.
SessionProps(cmd) ==
  CASE cmd \in {"rg_phole", "rg_rhole", "rg_chole", "rg_cleanholes"} -> {"C11"}
    [] cmd \in {"rg_addseeds", "rg_flagseeds", "rg_seedfile", "rg_cleanseeds", "rg_generate"} -> {"C12"}
    [] cmd \in {"rg_new", "rg_poly", "rg_show", "rg_copy", "rg_assign", "rg_mutate"} -> {"C11", "C12", "C13"}
    [] cmd = "rg_ask" -> {"C16", "C18"}
    [] cmd = "rg_where" -> {"C17"}
    [] cmd \in {"gen", "constrained", "conforming"} -> {"C01", "C02", "C03", "C05", "C08"}
    [] cmd = "restricted" -> {"C01", "C02", "C03", "C04", "C05"}
    [] cmd \in {"reread", "vreread", "infovor"} -> {"C05"}
    [] cmd \in {"voronoi", "info"} -> {"C01", "C02", "C06", "C07", "C08"}
    [] OTHER -> {}

SessionStep(want, st, ev) ==
  CASE ev.e = "rg_new" -> RgNew(st, ev)
    [] ev.e = "rg_poly" -> RgPoly(st, ev)
    [] ev.e = "rg_show" -> RgSame(st, ev, st.regs[ev.r])
    [] ev.e \in {"rg_copy", "rg_assign"} -> RgSame(st, ev, st.regs[ev.from])
    [] ev.e = "rg_mutate" -> RgMutate(st, ev)
    [] ev.e \in {"rg_phole", "rg_rhole", "rg_chole"} -> RgHole(st, ev)
    [] ev.e = "rg_cleanholes" -> RgCleanHoles(st, ev)
    [] ev.e \in {"rg_addseeds", "rg_flagseeds", "rg_seedfile"} -> RgAddSeeds(st, ev)
    [] ev.e = "rg_cleanseeds" -> RgCleanSeeds(st, ev)
    [] ev.e = "rg_generate" -> RgGenerate(st, ev)
    [] ev.e = "rg_ask" -> RgAsk(st, ev)
    [] ev.e = "rg_where" -> RgWhere(st, ev)
    [] ev.e = "gen" -> Gen(st, ev)
    [] ev.e = "constrained" -> Constrained(want, st, ev)
    [] ev.e = "conforming" -> Conforming(want, st, ev)
    [] ev.e = "restricted" -> Restricted(want, st, ev)
    [] ev.e = "info" -> Info(want, st, ev)
    [] ev.e \in {"reread", "vreread", "infovor"} -> Reread(want, st, ev)
    [] ev.e = "voronoi" -> Voronoi(want, st, ev)
=============================================================================
