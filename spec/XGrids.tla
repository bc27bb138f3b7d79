------------------------------- MODULE XGrids --------------------------------
(***************************************************************************)
(* Two functions, with their states by module Generators, two generators   *)
(* that share the first one, and histories of grids and of values.         *)
(* What: "plain" for functions that are not random, "random".              *)
(***************************************************************************)
EXTENDS Generators, Scripts
CONSTANTS What, Sizes, Corners, Depth

PW == 20
SomeSizes == {<<1, 1>>, <<2, 3>>, <<4, 2>>}
MoreSizes == {<<1, 1>>, <<1, 3>>, <<2, 3>>, <<3, 1>>}
U == 2 ^ PW
Fs == IF What = "plain"
      THEN <<[k |-> "const"], [k |-> "uni", n |-> -3, e |-> 1], [k |-> "disp", d |-> U], [k |-> "alt"], [k |-> "sin", a |-> 2 * U, fn |-> 1, fk |-> 2, ph |-> 30 * 64 + 21]>>
      ELSE <<[k |-> "const"], [k |-> "rint", lo |-> -U, hi |-> 2 * U], [k |-> "rdbl", lo |-> 0, hi |-> U], [k |-> "rdbl", lo |-> 3 * U, hi |-> 4 * U]>>
FText(d) == CASE d.k \in {"const", "alt"} -> d.k
              [] d.k = "uni" -> Words(<<d.k, Num(d.n), Num(d.e)>>)
              [] d.k = "disp" -> Words(<<d.k, Num(d.d)>>)
              [] d.k = "sin" -> Words(<<d.k, Num(d.a), Num(d.fn), Num(d.fk), Num(d.ph)>>)
              [] d.k \in {"rint", "rdbl"} -> Words(<<d.k, Num(d.lo), Num(d.hi)>>)
Kinds == {"xy", "yx", "x", "y"}
GText(k) == CASE k = "xy" -> "pg G xy ref F0 ref F1" [] k = "yx" -> "pg G xy ref F1 ref F0" [] k = "x" -> "pg G x ref F0" [] k = "y" -> "pg G y ref F0"

VARIABLES fns, kind, path
vars == <<fns, kind, path>>
F0 == 1..Len(Fs)
Init == /\ \E i, j \in F0 : fns = ("F0" :> [def |-> Fs[i], s |-> InitFn(Fs[i])]) @@ ("F1" :> [def |-> Fs[j], s |-> InitFn(Fs[j])])
        /\ kind \in Kinds
        /\ kind \in {"x", "y"} => fns["F1"].def.k = "const"
        /\ path = <<"fn F0 " \o FText(fns["F0"].def), "fn F1 " \o FText(fns["F1"].def), GText(kind), "pg H x ref F0">>

Box(c) == LET b == <<-5 * U, 2 * U, U, 14 * U>> IN
  CASE c = 0 -> b [] c = 1 -> <<b[3], b[2], b[1], b[4]>> [] c = 2 -> <<b[1], b[4], b[3], b[2]>> [] c = 3 -> <<b[3], b[4], b[1], b[2]>>
\* The functions after a grid of the generator g: by GridFrom, which tells the points wrong as well; those do not matter here.
Gen(g) == CASE g = "H" -> [k |-> "x", f |-> [k |-> "ref", f |-> "F0"]]
            [] kind = "xy" -> [k |-> "xy", fx |-> [k |-> "ref", f |-> "F0"], fy |-> [k |-> "ref", f |-> "F1"]]
            [] kind = "yx" -> [k |-> "xy", fx |-> [k |-> "ref", f |-> "F1"], fy |-> [k |-> "ref", f |-> "F0"]]
            [] OTHER -> [k |-> kind, f |-> [k |-> "ref", f |-> "F0"]]
After(g, nx, ny) == GridFrom(PW, fns, Gen(g), [nx |-> nx, ny |-> ny, pre |-> 0, out |-> [i \in 1..(nx * ny) |-> <<0, 0>>]], <<-5 * U, 2 * U, U, 14 * U>>, 0).fns
Xs == <<0, U, U, 0, -3 * U, U>>
Next == /\ Len(path) < 4 + Depth /\ kind' = kind
        /\ \/ \E g \in {"G", "H"} : \E n \in Sizes : \E c \in Corners :
                /\ (g = "H" => c = 0)
                /\ fns' = After(g, n[1], n[2])
                /\ path' = Append(path, Words(<<"grid", g>> \o [i \in 1..4 |-> Num(Box(c)[i])] \o <<Num(n[1]), Num(n[2]), Num((n[1] + c) % 3)>>))
           \/ /\ fns' = ApplyAll(PW, fns, "F0", Xs, Xs, 1).fns
              /\ path' = Append(path, "apply F0 " \o IntsText(Xs))
        /\ Emit(path')
Spec == Init /\ [][Next]_vars

\* The states that functions have: a displacement, or values all different and a shift.
States == \A f \in DOMAIN fns : LET s == fns[f].s IN
  fns[f].def.k = "alt" => /\ \A i, j \in 1..Len(s.seen) : i # j => s.seen[i] # s.seen[j]
                          /\ s.delta >= 0
=============================================================================
