------------------------------ MODULE XBasics --------------------------------
(***************************************************************************)
(* Every line of up to MaxLine characters of an alphabet, every list of up *)
(* to MaxList numbers with every number looked for, every pair of vectors  *)
(* of a lattice, and every whole degree.                                   *)
(***************************************************************************)
EXTENDS Scripts, FiniteSets
CONSTANTS Alphabet, MaxLine, MaxList, Side

VARIABLES what, s
vars == <<what, s>>
Init == what \in {"line", "list", "vec", "deg", "edge", "map"} /\ s = <<>>
U == 1048576
Codes(t) == IntsText(t)
Grow(S, n) == Len(s) < n /\ \E x \in S : s' = Append(s, x)
Next ==
  /\ what' = what
  /\ CASE what = "line" -> Grow(Alphabet, MaxLine) /\ Emit(<<"words " \o Codes(s')>>)
       [] what = "list" -> Grow(0..2, MaxList) /\ Emit(<<"find " \o Codes(s') \o " 5 -1 0 1 2 3", "find 5 2 0 1 1 3 " \o Codes(s')>>)
       [] what = "vec" -> Grow(-Side..Side, 4) /\ (IF Len(s') = 4 /\ (s'[1] # 0 \/ s'[2] # 0)
                            THEN Emit(<<"vec " \o Words([i \in 1..4 |-> Num(s'[i] * U)]) \o " 16", "vec " \o Words([i \in 1..4 |-> Num(s'[i] * 3000001)]) \o " -24",
                                        "texts " \o Num(s'[1] * 7 + s'[2]) \o " " \o Num(s'[3]) \o " " \o Words([i \in 1..4 |-> Num(s'[i] * 3000001)]) \o " " \o Num((s'[1] + 2 * s'[3] + 9) % 18)>>) ELSE TRUE)
       [] what = "deg" -> Grow(0..719, 1) /\ Emit(<<"deg 3 " \o Words(<<Num((s'[1] - 359) * 1024), Num((s'[1] - 359) * 1024 - 341), Num((s'[1] - 359) * 1024 - 1000)>>)>>)
       [] what = "map" -> Grow({<<k, v>> : k \in {-1, 2}, v \in {3, 8, -5}}, 3) /\ Emit(<<"entries " \o Num(Len(s')) \o " " \o Words([i \in 1..(2 * Len(s')) |-> Num(s'[(i + 1) \div 2][2 - (i % 2)])])>>)
       [] what = "edge" -> Grow(0..3, 4) /\ Emit(<<"edge 5 9 " \o Codes(s'), "edge 9 5 " \o Codes(s')>>)
Spec == Init /\ [][Next]_vars
=============================================================================
