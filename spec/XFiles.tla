------------------------------- MODULE XFiles --------------------------------
(***************************************************************************)
(* Every mesh of the cells of a W x H lattice - a cell is left out, whole, *)
(* or split along one of its diagonals -, written by the library, and read *)
(* from files in which each element has points of its own, or shares them, *)
(* numbered from Starts on, in a style.                                    *)
(***************************************************************************)
EXTENDS MeshProps, Scripts
CONSTANTS W, H, Starts, What

U == 1048576
Two == <<0, 1>>
Four == <<0, 1, 17, -4>>
VARIABLES cells, done
vars == <<cells, done>>
Init == cells = <<>> /\ done = FALSE

Pn(x, y) == y * (W + 1) + x
Spot(i) == <<i % (W + 1), i \div (W + 1)>>
\* Elements, counter-clockwise; some begin elsewhere, and some cells are clockwise.
Rot(s, k) == LET n == Len(s)  j == k % n IN SubSeq(s, j + 1, n) \o SubSeq(s, 1, j)
ElsOf(k) ==
  LET x == (k - 1) % W  y == (k - 1) \div W
      a == Pn(x, y)  b == Pn(x + 1, y)  c == Pn(x + 1, y + 1)  d == Pn(x, y + 1)
      es == CASE cells[k] = 0 -> <<>> [] cells[k] = 1 -> <<<<a, b, c, d>>>> [] cells[k] = 2 -> <<<<a, b, c>>, <<a, c, d>>>> [] cells[k] = 3 -> <<<<b, c, d>>, <<a, b, d>>>>
  IN  [i \in 1..Len(es) |-> LET r == Rot(es[i], k + cells[1]) IN IF (k + cells[k]) % 5 = 0 THEN Reverse(r) ELSE r]
Els == FoldLeft(LAMBDA acc, k : acc \o ElsOf(k), <<>>, [k \in 1..Len(cells) |-> k])
Full == [m |-> [pts |-> [i \in 1..((W + 1) * (H + 1)) |-> <<Spot(i - 1)[1] * U, Spot(i - 1)[2] * U>>], els |-> Els]]

\* The points that the elements have, in the order in which they have them; or all, from the last to the first.
Used(els) == FoldLeft(LAMBDA acc, e : FoldLeft(LAMBDA a, i : IF \E k \in 1..Len(a) : a[k] = i THEN a ELSE Append(a, i), acc, e), <<>>, els)
AllPts == [i \in 1..((W + 1) * (H + 1)) |-> (W + 1) * (H + 1) - i]
Nums(els, s, start) ==
  LET at == [i \in Range(s) |-> (CHOOSE k \in 1..Len(s) : s[k] = i) - 1] IN
  Words(<<Num(Len(els))>> \o [e \in 1..Len(els) |-> IntsText([i \in 1..Len(els[e]) |-> at[els[e][i]] + start])])
\* Each element with points of its own, a few units off those of the others.
Own(els) == FoldLeft(LAMBDA acc, e : acc \o e, <<>>, els)
OwnNums(els, start) ==
  LET F[e \in 0..Len(els)] == IF e = 0 THEN 0 ELSE F[e - 1] + Len(els[e])
  IN  Words(<<Num(Len(els))>> \o [e \in 1..Len(els) |-> IntsText([i \in 1..Len(els[e]) |-> F[e - 1] + i - 1 + start])])
OwnPts(own) == Words(<<Num(Len(own))>> \o [i \in 1..Len(own) |-> PtText(<<Spot(own[i])[1] * U + (i % 3) - 1, Spot(own[i])[2] * U - (i % 2)>>)])
Pts(s) == PtsText([i \in 1..Len(s) |-> Spot(s[i])], U)
Tri == \A k \in 1..Len(cells) : cells[k] # 1
Kind == IF Tri /\ cells[1] # 2 THEN "tri" ELSE "poly"
Style == (cells[1] + 4 * cells[2] + 7 * cells[Len(cells)]) % 32
Read(els, used, own, start) ==
  <<Words(<<"mread", Kind, Num(start), Num(Style), Pts(used), Nums(els, used, start)>>),
    Words(<<"mread", Kind, Num(start), Num(31 - Style), Pts(AllPts), Nums(els, AllPts, start)>>),
    Words(<<"mread", Kind, Num(start), Num(Style), OwnPts(own), OwnNums(els, start)>>)>>
Write(els, s) == Words(<<"mwrite poly", Num(Len(s))>> \o [i \in 1..Len(s) |-> Words(<<Num(Spot(s[i])[1] * 1099511), Num(Spot(s[i])[2] * 1048576 - 524289), "10">>)] \o <<Nums(els, s, 0)>>)
Text == LET els == Els  used == Used(els)  own == Own(els) IN
        IF What = "read" THEN FoldLeft(LAMBDA acc, start : acc \o Read(els, used, own, start), <<>>, Starts)
        ELSE <<Write(els, used), "cset prec " \o Num((cells[1] + 4 * cells[2] + cells[Len(cells)]) % 18), Write(els, AllPts), Write(els, used)>>

Next == /\ ~done
        /\ \/ Len(cells) < W * H /\ done' = FALSE /\ \E c \in 0..3 : cells' = Append(cells, c)
           \/ Len(cells) = W * H /\ done' = TRUE /\ cells' = cells /\ (\E k \in 1..Len(cells) : cells[k] # 0) /\ Emit(Text)
Spec == Init /\ [][Next]_vars

\* By module MeshProps these are meshes: elements that do not overlap and, all cells being there, tile the lattice.
Corner(s) == <<s[1] * U, s[2] * U>>
Outline == [i \in 1..(2 * (W + H)) |-> Corner(IF i <= W THEN <<i - 1, 0>> ELSE IF i <= W + H THEN <<W, i - 1 - W>> ELSE IF i <= 2 * W + H THEN <<2 * W + H - i + 1, H>> ELSE <<0, 2 * (W + H) - i + 1>>)]
AreMeshes == done /\ (\A k \in 1..Len(cells) : cells[k] # 0) =>
  LET D == [ring |-> Outline, holes |-> <<>>]
      f == Full.m
      m == [pts |-> f.pts, els |-> [e \in 1..Len(f.els) |-> IF Area2Sign([i \in 1..Len(f.els[e]) |-> f.pts[f.els[e][i] + 1]]) > 0 THEN f.els[e] ELSE Reverse(f.els[e])]]
  IN  TilingFaults(m, D, Sides(D)) = {}
=============================================================================
