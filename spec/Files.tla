-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Files: what a mesh, a region or a neighbour map is written as (C09, C26)*)
(* and the mesh that a file is read as (C10).  A file is a sequence of     *)
(* lines, a line a sequence of words; a word is <<"n", digits, decimals,   *)
(* plain>> for a number without an exponent, or <<"s">>.                   *)
(* The only state that matters is the configured precision (Config).       *)
(***************************************************************************)
EXTENDS MeshProps

\* A word that is the integer i, written as such.
IsInt(w, i) == w[1] = "n" /\ w[4] = 1 /\ w[2] = <<IF i < 0 THEN -1 ELSE 1, 0, AbsV(i) \div 1073741824, AbsV(i) % 1073741824>>
IsZero(w) == w[1] = "n" /\ w[2][2] = 0 /\ w[2][3] = 0 /\ w[2][4] = 0
IsIntLine(line, s) == Len(line) = Len(s) /\ \A i \in 1..Len(s) : IsInt(line[i], s[i])
\* A word that is the coordinate x with the given number of decimals.
IsFixed(w, x, prec) == w[1] = "n" /\ w[3] = prec /\ DecimalIs(w[2], prec, x)
IsFixedLine(line, v, prec) == Len(line) = 2 /\ IsFixed(line[1], v[1], prec) /\ IsFixed(line[2], v[2], prec)
\* A word that is x with six significant digits or more.
IsNear(w, x) == w[1] = "n" /\ DecimalNear(w[2], w[3], x, 6)
IsNearLine(line, v) == Len(line) = 2 /\ IsNear(line[1], v[1]) /\ IsNear(line[2], v[2])

\* The places in the file of the mesh [co, es, els]: 1 + points, 1 + edges, 1 + elements.
MeshText(m, lines, prec) ==
  LET n == Len(m.co)  e == Len(m.es)  k == Len(m.els) IN
  IF Len(lines) # n + e + k + 3 THEN {"a written mesh has lines too few or too many"}
  ELSE If(IsIntLine(lines[1], <<n>>), "a written mesh does not begin with its number of points")
       \cup If(\A i \in 1..n : IsFixedLine(lines[1 + i], m.co[i], prec), "a written mesh has other points than the mesh, or not with the configured precision")
       \cup If(IsIntLine(lines[n + 2], <<e>>), "a written mesh does not have its number of edges after the points")
       \cup If(\A s \in Range(m.es) : \E i \in 1..e : IsIntLine(lines[n + 2 + i], s) \/ IsIntLine(lines[n + 2 + i], <<s[2], s[1]>>), "a written mesh lacks an edge")
       \cup If(IsIntLine(lines[n + e + 3], <<k>>), "a written mesh does not have its number of elements after the edges")
       \cup If(\A i \in 1..k : IsIntLine(lines[n + e + 3 + i], <<Len(m.els[i])>> \o m.els[i]), "a written mesh has other elements than the mesh, or in another order")

\* The points of a written mesh do not have the configured number of decimals.
Decimals(m, lines, prec) ==
  If(\A i \in 1..Len(m.co) : i + 1 > Len(lines) \/ \A w \in Range(lines[i + 1]) : w[1] = "n" /\ w[3] = prec, "a mesh is not written with the configured precision")

MWrite(ev, prec) ==
  {<<"C09", x>> : x \in MeshText(ev, ev.lines, prec)
       \cup If({Undirected(<<s[1], s[2]>>) : s \in Range(ev.es)} = UNION {ElSides(ev, i) : i \in 1..Len(ev.els)}
               /\ Len(ev.es) = Cardinality({Undirected(<<s[1], s[2]>>) : s \in Range(ev.es)}), "the edges of a mesh are not the sides of its elements")
       \cup If("around" \in DOMAIN ev => ev.around = 1, "a mesh is not written at the place of the stream")
       \cup If("given" \in DOMAIN ev => ev.co = ev.given.co /\ ev.els = ev.given.els, "a mesh does not have the points and elements it was made of")}
  \cup {<<"C24", x>> : x \in Decimals(ev, ev.lines, prec)}

\* A mesh of n points and one triangle: its first line and its last six.
MLarge(ev) ==
  LET t == ev.els[1]  n == ev.count IN
  {<<"C09", x>> : x \in
     If(ev.total = n + 7 /\ IsIntLine(ev.first, <<n>>) /\ Len(ev.tail) = 6, "a large mesh does not have its number of lines")
     \cup If(/\ IsIntLine(ev.tail[1], <<3>>) /\ IsIntLine(ev.tail[5], <<1>>) /\ IsIntLine(ev.tail[6], <<3>> \o t)
             /\ \A k \in 1..3 : \E i \in 2..4 : IsIntLine(ev.tail[i], <<t[k], Next1(t, k)>>) \/ IsIntLine(ev.tail[i], <<Next1(t, k), t[k]>>),
             "the edges or elements of a large mesh are not written as its indexes")}

\* The mesh read from the points in and the elements given, numbered from start.
MRead(ev) ==
  LET m == ev.mesh
      \* the position of the point that the file calls i: where an equal one came first
      First(i) == CHOOSE j \in 1..Len(ev.in) : Close(ev.in[j], ev.in[i], 5) /\ \A h \in 1..(j - 1) : ~Close(ev.in[h], ev.in[i], 5)
      firsts == {First(i) : i \in 1..Len(ev.in)}
      ok == \A e \in 1..Len(m.els) : \A i \in Range(m.els[e]) : i \in 0..(NumPts(m) - 1)
  IN  {<<"C10", x>> : x \in
     If(ev.around = 1, "more or less than a mesh is read from a stream")
     \cup If(NumPts(m) = Cardinality(firsts) /\ \A i \in firsts : \E q \in Range(m.pts) : Close(q, ev.in[i], 1), "the points read are not the ones in the file, equal ones merged")
     \cup If(ok, "an element with vertices that there are not")
     \cup (IF ~ok THEN {} ELSE
           If(/\ Len(m.els) = Len(ev.given)
              /\ \A e \in 1..Len(m.els) : /\ Len(m.els[e]) = Len(ev.given[e])
                                          /\ \A k \in 1..Len(m.els[e]) : Close(Pt(m, m.els[e][k]), ev.in[ev.given[e][k] - ev.start + 1], 5),
              "an element read does not have the vertices of the one in the file")
           \cup ConnectivityFaults(m))}

MMissing(ev) == {<<"C10", x>> : x \in If(ev.thrown # "", "a file that does not exist is read")}

-----------------------------------------------------------------------------
\* C26

RWrite(ev) ==
  LET pts == ev.pts \o ev.seeds  n == Len(pts)  k == Len(ev.segs)  L == ev.lines IN
  {<<"C26", x>> : x \in
     IF Len(L) # n + k + 3 THEN {"a written region has lines too few or too many"}
     ELSE If(IsIntLine(L[1], <<n>>), "a written region does not begin with its number of points and seeds")
          \cup If(\A i \in 1..n : IsNearLine(L[1 + i], pts[i]), "a written region has other points or seeds, or in another order")
          \cup If(IsIntLine(L[n + 2], <<k>>), "a written region does not have its number of segments after the points")
          \cup If(\A s \in Range(ev.segs) : \E i \in 1..k : IsIntLine(L[n + 2 + i], s) \/ IsIntLine(L[n + 2 + i], <<s[2], s[1]>>), "a written region lacks a segment")
          \cup If(IsIntLine(L[n + k + 3], <<0>>), "a written region does not end with the number zero")}

\* What Triangle reads: numbered points, segments between them, and the centers of the holes.
TWrite(ev) ==
  LET n == Len(ev.pts)  k == Len(ev.segs)  h == Len(ev.centers)  L == ev.lines
      Numbered(line, j, v) == Len(line) = 3 /\ IsInt(line[1], j) /\ IsNearLine(Tail(line), v)
  IN  {<<"C26", x>> : x \in
     IF Len(L) # n + k + h + 3 THEN {"the input of Triangle has lines too few or too many"}
     ELSE If(IsIntLine(L[1], <<n, 2, 0, 0>>) /\ \A i \in 1..n : Numbered(L[1 + i], i - 1, ev.pts[i]), "the input of Triangle has other points than the region and the seeds")
          \cup If(IsIntLine(L[n + 2], <<k, 0>>)
                  /\ (\A i \in 1..k : Len(L[n + 2 + i]) = 3 /\ IsInt(L[n + 2 + i][1], i - 1))
                  /\ \A s \in Range(ev.segs) : \E i \in 1..k : LET a == ev.ix[s[1] + 1]  b == ev.ix[s[2] + 1]  w == Tail(L[n + 2 + i]) IN IsIntLine(w, <<a, b>>) \/ IsIntLine(w, <<b, a>>),
                  "the input of Triangle has other segments than the region")
          \cup If(IsIntLine(L[n + k + 3], <<h>>) /\ \A i \in 1..h : Numbered(L[n + k + 3 + i], i - 1, ev.centers[i]), "the input of Triangle does not have the centers of the holes")}

SMWrite(ev) ==
  {<<"C26", x>> : x \in
     If(Len(ev.lines) = Len(ev.in) /\
        \A s \in Range(ev.in) : \E l \in Range(ev.lines) : IsIntLine(l, s) \/ IsIntLine(l, <<s[2], s[1], s[3], s[4]>>), "a segment map is written with other entries")}
PMWrite(ev) ==
  {<<"C26", x>> : x \in
     If(Len(ev.lines) = Len(ev.in) /\
        \A s \in Range(ev.in) : \E l \in Range(ev.lines) : Len(l) = 3 /\ IsNear(l[1], s[1][1]) /\ IsNear(l[2], s[1][2]) /\ IsInt(l[3], s[2]),
        "a point map is written with other entries")}

FileEvents == {"mwrite", "mlarge", "mread", "mmissing", "rwrite", "twrite", "smwrite", "pmwrite"}
FileProps(cmd) == CASE cmd \in {"mwrite", "mlarge"} -> {"C09"}
                    [] cmd \in {"mread", "mmissing"} -> {"C10"}
                    [] OTHER -> {"C26"}
FileFaults(ev, prec) ==
  CASE ev.e = "mwrite" -> MWrite(ev, prec)
    [] ev.e = "mlarge" -> MLarge(ev)
    [] ev.e = "mread" -> MRead(ev)
    [] ev.e = "mmissing" -> MMissing(ev)
    [] ev.e = "rwrite" -> RWrite(ev)
    [] ev.e = "twrite" -> TWrite(ev)
    [] ev.e = "smwrite" -> SMWrite(ev)
    [] ev.e = "pmwrite" -> PMWrite(ev)
=============================================================================
