------------------------------- MODULE XPairs --------------------------------
(***************************************************************************)
(* Every pair of segments between points of a W x H lattice, and every     *)
(* segment with every third point.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Scripts
CONSTANTS W, H, Per

U == 1048576
At(i) == <<(i - 1) \div H, (i - 1) % H>>
N == W * H
Shift(i, j) == LET x == (i + j) % 4 IN CASE x = 0 -> <<0, 0>> [] x = 1 -> <<-1, -1>> [] x = 2 -> <<200, -7>> [] x = 3 -> <<-1, 900>>
P(i, d) == LET v == At(i) IN PtText(<<(v[1] + d[1]) * U, (v[2] + d[2]) * U>>)

VARIABLES a, b
vars == <<a, b>>
Init == a \in 1..N /\ b = 0
Others == SetToSeq({q \in (1..N) \X (1..N) : q[1] # q[2]})
Batch(i, j, k) == LET d == Shift(i, j)  m == IF Len(Others) < k + Per - 1 THEN Len(Others) - k + 1 ELSE Per IN
  Words(<<"segs", Num(m)>> \o [x \in 1..m |-> Words(<<P(i, d), P(j, d), P(Others[k + x - 1][1], d), P(Others[k + x - 1][2], d)>>)])
Text(i, j) ==
  LET n == (Len(Others) + Per - 1) \div Per IN
  [k \in 1..n |-> Batch(i, j, (k - 1) * Per + 1)]
  \o [k \in 1..N |-> Words(<<"seg", P(i, Shift(i, k)), P(j, Shift(i, k)), P(k, Shift(i, k))>>)]
Next == b = 0 /\ a' = a /\ \E j \in 1..N : j # a /\ b' = j /\ Emit(Text(a, j))
Spec == Init /\ [][Next]_vars
=============================================================================
