-------------------------------- MODULE XMaps --------------------------------
(***************************************************************************)
(* A point map, and two segment maps, by module Containers: every content  *)
(* that few insertions lead to, and every operation in it.                 *)
(***************************************************************************)
EXTENDS Containers, Scripts
CONSTANTS Kind, Depth

\* The first two points are the same; so are segments with exchanged ends.
PointsOf == {<<1048576, 0>>, <<1048572, 5>>, <<0, 0>>, <<0, 2097152>>}
KeysOf == {<<0, 1>>, <<1, 0>>, <<1, 2>>, <<0, 2>>}
Els == {0, 3}
Lim == 10

VARIABLES m, m2, path
vars == <<m, m2, path>>

Init == /\ path = IF Kind = "pm" THEN <<"pm new M">> ELSE <<"sm new M">>
        /\ m = IF Kind = "pm" THEN <<>> ELSE {}
        /\ m2 = {}

-----------------------------------------------------------------------------
Put(p, ns) == LET i == PosOf(m, p, Lim) IN IF i = 0 THEN Append(m, <<p, ns>>) ELSE [m EXCEPT ![i] = <<m[i][1], m[i][2] \o ns>>]
Gets(mm) == LET ps == SetToSeq({p \in PointsOf : PosOf(mm, p, Lim) # 0}) IN [i \in 1..Len(ps) |-> "pm get M " \o PtText(ps[i])]
PmNext == \E p \in PointsOf : \E ns \in {<<0>>, <<3>>, <<0, 3>>} :
            LET c == IF Len(ns) = 1 THEN "pm ins M " \o PtText(p) \o " " \o Num(ns[1]) ELSE "pm insl M " \o PtText(p) \o " " \o IntsText(ns)
            IN  /\ m' = Put(p, ns) /\ m2' = m2 /\ path' = Append(path, c)
                /\ Emit(path' \o Gets(m'))

-----------------------------------------------------------------------------
Old(mm, k) == {e \in mm : e[1] = KeyOf(k)}
Put1(mm, k, n) == (mm \ Old(mm, k)) \cup {IF Old(mm, k) = {} THEN <<KeyOf(k), n, -1>> ELSE LET e == CHOOSE x \in Old(mm, k) : TRUE IN <<KeyOf(k), e[2], n>>}
Put2(mm, k, n1, n2) == (mm \ Old(mm, k)) \cup {<<KeyOf(k), n1, n2>>}
\* Looking up a key that is not there is left out: what it returns, and adds to the map, is not defined.
Looks == LET ks == SetToSeq(KeysOf)
             has == [i \in 1..Len(ks) |-> "sm has M " \o PtText(ks[i])]
             gs == SetToSeq({k \in KeysOf : Old(m', k) # {}})
         IN  has \o [i \in 1..Len(gs) |-> "sm get M " \o PtText(gs[i])] \o <<"sm copy N M">>
SmNext == \E k \in KeysOf : \E x \in {[op |-> "ins", ns |-> <<n>>] : n \in Els} \cup {[op |-> o, ns |-> ns] : o \in {"insn", "set"}, ns \in {<<0, 3>>, <<3, -1>>}} :
            /\ x.op = "set" => Old(m, k) # {}
            /\ m' = IF x.op = "ins" THEN Put1(m, k, x.ns[1]) ELSE Put2(m, k, x.ns[1], x.ns[2])
            /\ m2' = m2
            /\ path' = Append(path, Words(<<"sm", x.op, "M", PtText(k)>> \o [i \in 1..Len(x.ns) |-> Num(x.ns[i])]))
            /\ Emit(path' \o Looks)

Next == Len(path) <= Depth /\ IF Kind = "pm" THEN PmNext ELSE SmNext
Spec == Init /\ [][Next]_vars
View == <<m, m2>>

\* There is one entry for each key, and what was inserted for others stays.
OneEach == IF Kind = "pm" THEN \A i, j \in 1..Len(m) : i # j => ~Close(m[i][1], m[j][1], Lim)
           ELSE \A e, f \in m : e[1] = f[1] => e = f
=============================================================================
