------------------------------- MODULE Basics --------------------------------
(***************************************************************************)
(* The helpers of the library: vectors and pairs, degrees and radians,     *)
(* searches, words of a line, and texts.  They have no state.  C27.        *)
(***************************************************************************)
EXTENDS Files

Z == <<0, 0>>
Turned(v) == <<-v[2], v[1]>>            \* by a quarter of a turn: the product with it is the dot product
Minus(v) == <<-v[1], -v[2]>>
SignOf(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Bool(b) == IF b THEN 1 ELSE 0
LessPair(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Vec(ev) ==
  LET p == ev.p  q == ev.q  u == ev.iu  v == ev.iv IN
  If(ev.minus = <<p[1] - q[1], p[2] - q[2]>> /\ ev.plus = <<p[1] + q[1], p[2] + q[2]>> /\ ev.copy = p, "a sum or difference of vectors is wrong")
  \cup If(Close(ev.times, <<MulDiv(p[1], ev.k, 16), MulDiv(p[2], ev.k, 16)>>, 1), "a multiple of a vector is wrong")
  \cup If(Area2Is(<<Z, p, q>>, ev.cross, 1024), "a cross product is wrong")
  \cup If(Area2Is(<<Z, p, Turned(q)>>, ev.dot, 1024), "a dot product is wrong")
  \cup If(\A k \in 1..2 : Area2Is(<<Z, p, Turned(p)>>, ev.sq[k], 1024), "a square norm is wrong")
  \cup If(DistIs(Z, p, ev.norm, 256, 256), "a norm is wrong")
  \cup If(/\ ev.unit[1] # BAD /\ ev.unit[2] # BAD /\ Before(Z, p, Z, ev.unit, 0)
          /\ OrientT(Z, p, ev.unit, 2) = 0 /\ DistIs(Z, ev.unit, <<1, 0, 268435456, 0>>, 1073741824, 2147483647), "a normalised vector is wrong")
  \cup If(ev.sign = <<SignOf(p[1]), SignOf(ev.k)>>, "a sign is wrong")
  \cup If(ev.rel = <<Bool(p = q), 1, Bool(LessPair(p, q)), Bool(LessPair(q, p)), 0>>, "pairs are compared wrongly")
  \cup If(ev.ints = <<u[1] + v[1], u[2] + v[2], u[1] * v[1] + u[2] * v[2]>> /\ ev.irel = <<Bool(u = v), Bool(LessPair(u, v)), Bool(LessPair(v, u))>>, "the arithmetic of pairs of integers is wrong")

\* 2^24 pi / (180 * 2^10) = 52707178.5 / 184320
Deg(ev) ==
  If(\A k \in 1..Len(ev.in) : AbsV(ev.out[k][1] - MulDiv(ev.in[k], 52707179, 184320)) <= 3, "an angle in radians is wrong")
  \cup If(\A k \in 1..Len(ev.in) : ev.out[k][2] \in 0..368640 /\ (ev.out[k][2] - ev.in[k]) % 368640 = 0, "an angle in degrees is not the one between 0 and 360")

FirstAt(s, x) == IF \E k \in 1..Len(s) : s[k] = x THEN (CHOOSE k \in 1..Len(s) : s[k] = x /\ \A j \in 1..(k - 1) : s[j] # x) - 1 ELSE -1
Find(ev) ==
  If(ev.at = [k \in 1..Len(ev.of) |-> FirstAt(ev.in, ev.of[k])] /\ ev.pat = ev.at, "an element is found elsewhere, or not found")
  \cup If(ev.trivial = ev.of \o [k \in 1..Len(ev.in) |-> k - 1], "a list of indexes is wrong")

\* The map that is given the pairs of s one after the other, as the sequence of its entries in the order of the keys.
Entries(s) ==
  LET keys == {s[i][1] : i \in 1..Len(s)}
      last(k) == LET I == {i \in 1..Len(s) : s[i][1] = k} IN s[CHOOSE i \in I : \A j \in I : j <= i]
  IN  [i \in 1..Cardinality(keys) |-> last(SetToSortSeq(keys, <)[i])]
MapEntries(ev) ==
  LET E == Entries(ev.in) IN
  If(ev.keys = [i \in 1..Len(E) |-> 8 * E[i][1]], "the keys of a map are wrong")
  \cup If(ev.values = [i \in 1..Len(E) |-> E[i][2]], "the values of a map are wrong")

Spaces == {9, 10, 11, 12, 13, 32}
\* The longest parts of s without the characters of S.
Parts(s, S) ==
  LET n == Len(s)
      start == {i \in 1..n : s[i] \notin S /\ (i = 1 \/ s[i - 1] \in S)}
      Upto(i) == CHOOSE j \in i..n : (\A k \in i..j : s[k] \notin S) /\ (j = n \/ s[j + 1] \in S)
      order == SetToSortSeq(start, <)
  IN  [k \in 1..Cardinality(start) |-> SubSeq(s, order[k], Upto(order[k]))]
SplitWords(ev) == If(ev.out = Parts(ev.in, Spaces), "the words of a line are wrong") \cup If(ev.parts = Parts(ev.in, {44}), "the parts of a line are wrong")

Texts(ev) ==
  If(\A k \in 1..Len(ev.ints) : IsIntLine(ev.ints[k], <<ev.i, ev.j>>), "the text of a pair of indexes is wrong")
  \cup If(IsNearLine(ev.pt, ev.p), "the text of a point is wrong")
  \cup If(Len(ev.seg) = 4 /\ IsNearLine(SubSeq(ev.seg, 1, 2), ev.p) /\ IsNearLine(SubSeq(ev.seg, 3, 4), ev.q), "the text of a segment is wrong")
  \cup If(IsNearLine(ev.num, <<ev.p[1], ev.q[2]>>), "the text of a number is wrong")
  \cup If(IsFixedLine(ev.fixed, <<ev.p[1], ev.q[2]>>, ev.prec), "the text of a number with a precision is wrong")
  \cup If(Cardinality({k \in 1..Len(ev.whole) : ev.whole[k] = 32}) = 1 /\ Len(Parts(ev.whole, {32})) = 2, "the text of a point is not two numbers with a space")

Edge(ev) ==
  LET n == Len(ev.ts) IN
  If(n <= 2 => ev.edge = <<ev.i, ev.j, IF n = 0 THEN -1 ELSE ev.ts[1], IF n < 2 THEN -1 ELSE ev.ts[2]>>, "an edge does not have the triangles it was given")
  \cup If(ev.nb = <<ev.i, ev.j, ev.i, ev.j, -1>>, "the neighbours of a segment are not the ones given")
  \cup If(Range(ev.list) = Range(ev.ts) \cup {ev.i, ev.j} /\ Range(ev.all) = Range(ev.ts), "the neighbours of a point are not the ones given")

BasicEvents == {"vec", "deg", "find", "words", "texts", "edge", "entries"}
BasicProps(cmd) == {"C27"}
BasicFaults(ev) ==
  {<<"C27", x>> : x \in
     CASE ev.e = "vec" -> Vec(ev)
       [] ev.e = "deg" -> Deg(ev)
       [] ev.e = "find" -> Find(ev)
       [] ev.e = "words" -> SplitWords(ev)
       [] ev.e = "texts" -> Texts(ev)
       [] ev.e = "edge" -> Edge(ev)
       [] ev.e = "entries" -> MapEntries(ev)}
=============================================================================
