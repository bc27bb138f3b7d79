------------------------------- MODULE XDomains ------------------------------
(***************************************************************************)
(* Small domains with corners on a lattice, and every set of up to         *)
(* MaxSeeds of the lattice points around them as seeds: collinear and      *)
(* cocircular ones, seeds on sides, at corners, in holes and outside.      *)
(* Each is triangulated in both ways and divided into Voronoi cells.       *)
(***************************************************************************)
EXTENDS Planar, Scripts
CONSTANTS Shapes, MaxSeeds

U == 1048576
Domain(s) ==
  CASE s = "square" -> [ring |-> <<<<0, 0>>, <<3, 0>>, <<3, 3>>, <<0, 3>>>>, holes |-> <<>>]
    [] s = "ell" -> [ring |-> <<<<0, 0>>, <<0, 3>>, <<1, 3>>, <<1, 1>>, <<3, 1>>, <<3, 0>>>>, holes |-> <<>>]
    [] s = "slant" -> [ring |-> <<<<0, 0>>, <<3, 1>>, <<4, 4>>, <<1, 3>>>>, holes |-> <<>>]
    [] s = "notch" -> [ring |-> <<<<0, 0>>, <<2, 1>>, <<4, 0>>, <<4, 3>>, <<0, 3>>>>, holes |-> <<>>]
    [] s = "holed" -> [ring |-> <<<<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>>>>, holes |-> <<<<<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 1>>>>>>]
    [] s = "frame" -> [ring |-> <<<<0, 0>>, <<5, 0>>, <<5, 4>>, <<0, 4>>>>, holes |-> <<<<<<1, 1>>, <<2, 1>>, <<2, 3>>, <<1, 3>>>>, <<<<3, 1>>, <<4, 2>>, <<3, 3>>>>>>]
AllShapes == {"square", "ell", "slant", "notch", "holed", "frame"}
MaxX == 5
Lattice(s) == LET r == Domain(s).ring IN {<<x, y>> \in (0..MaxX) \X (0..4) : \E v, w \in Range(r) : v[1] >= x /\ w[2] >= y}
Before2(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

VARIABLES shape, seeds
vars == <<shape, seeds>>
Text == LET D == Domain(shape') IN
  <<"rg_new R " \o PtsText(D.ring, U)>> \o [i \in 1..Len(D.holes) |-> "rg_phole R " \o PtsText(D.holes[i], U)]
  \o <<"rg_addseeds R " \o PtsText(seeds', U), "gen G R", "constrained G A", "conforming G B", "voronoi R">>
Init == shape \in Shapes /\ seeds = <<>>
\* the seeds in one order, and its reverse for some
Next == /\ Len(seeds) < MaxSeeds /\ shape' = shape
        /\ \E p \in Lattice(shape) : /\ IF seeds = <<>> THEN TRUE ELSE Before2(seeds[Len(seeds)], p)
                                     /\ seeds' = Append(seeds, p)
        /\ Emit(Text)
Spec == Init /\ [][Next]_vars
=============================================================================
