-------------------------------- MODULE XHull --------------------------------
(***************************************************************************)
(* Every set of two or more points of a W x H lattice, in some order and   *)
(* with some points twice, for the convex hull.                            *)
(***************************************************************************)
EXTENDS Polygons, Scripts
CONSTANTS W, H, Most

U == 1048576
At(i) == <<(i - 1) \div H, (i - 1) % H>>

VARIABLES s, next
vars == <<s, next>>
Init == s = <<>> /\ next = 1

\* In lexicographic order, the other way round, or from the middle on; the last point is there twice.
Order(t) == LET n == Len(t)  k == n \div 2 IN
  CASE (t[n] + n) % 3 = 0 -> t [] (t[n] + n) % 3 = 1 -> Reverse(t) [] OTHER -> SubSeq(t, k + 1, n) \o SubSeq(t, 1, k) \o <<t[n]>>
Shift(t) == LET x == (t[1] + Len(t)) % 3 IN <<3 * (x - 1), 5 * (1 - x)>>
Text(t) == <<"hull " \o PtsText([i \in 1..Len(Order(t)) |-> LET v == At(Order(t)[i])  d == Shift(t) IN <<v[1] + d[1], v[2] + d[2]>>], U)>>
Take == /\ next <= W * H /\ Len(s) < Most /\ s' = Append(s, next) /\ next' = next + 1
        /\ Len(s') >= 2 => Emit(Text(s'))
Skip == next <= W * H /\ next' = next + 1 /\ s' = s
Next == Take \/ Skip
Spec == Init /\ [][Next]_vars

\* What the specification asks of a chain has one answer: the corners of the point set above, or below, the line
\* from the first to the last one. Neither less nor more points are a chain.
P == {At(s[i]) : i \in 1..Len(s)}
Corner(v, turn) == \A a, b \in P \ {v} : ~(LexLess(a, v) /\ LexLess(v, b) /\ Orient(a, b, v) * turn >= 0)
Chain(turn) == SetToSortSeq({v \in P : Corner(v, turn)}, LexLess)
OneAnswer == Len(s) >= 2 => \A turn \in {-1, 1} :
  LET c == Chain(turn) IN
  /\ ChainFaults(P, c, turn, "") = {}
  /\ \A i \in 1..Len(c) : ChainFaults(P, RemoveAt(c, i), turn, "") # {}
  /\ \A v \in P : \A i \in 1..(Len(c) + 1) : ChainFaults(P, InsertAt(c, i, v), turn, "") # {}
  /\ Len(c) >= 3 => ChainFaults(P, c, -turn, "") # {}
=============================================================================
