------------------------------ MODULE XRequests ------------------------------
(***************************************************************************)
(* Every history of up to Depth requests to two generators that were built *)
(* with the same region, changes of that region in between; afterwards the *)
(* first requests again, and every mesh that was handed out read again.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Scripts
CONSTANTS Depth, Rich

U == 1048576
Ring == <<<<0, 0>>, <<10, 0>>, <<10, 8>>, <<0, 8>>>>
Ring2 == <<<<0, 0>>, <<10, 0>>, <<10, 5>>, <<0, 8>>>>
Hole == <<<<6, 3>>, <<8, 3>>, <<8, 5>>>>
Seeds == <<<<3, 2>>, <<4, 6>>, <<9, 7>>>>
\* Segments: between seeds, from a vertex, along a side, and one that crosses the first.
SegA == <<3, 2, 4, 6>>
SegB == <<0, 0, 9, 7>>
SegC == <<2, 5, 5, 3>>
SegText(ss) == Words(<<Num(Len(ss))>> \o [i \in 1..(4 * Len(ss)) |-> Num(ss[((i - 1) \div 4) + 1][((i - 1) % 4) + 1] * U)])

VARIABLES hist, kept
vars == <<hist, kept>>
Requests(g, k) ==
  {<<"constrained " \o g \o " ", "">>, <<"conforming " \o g \o " ", "">>, <<"restricted " \o g \o " ", " " \o SegText(<<SegA>>)>>}
  \cup (IF Rich THEN {<<"restricted " \o g \o " ", " " \o SegText(<<SegA, SegC>>)>>, <<"restricted " \o g \o " ", " 0 ">>} ELSE {})
Changes == {"rg_mutate R " \o PtsText(Ring2, U), "rg_addseeds R 1 " \o PtText(<<U, 7 * U>>), "rg_cleanseeds R"}
           \cup (IF Rich THEN {"rg_cleanholes R", "gen G R"} ELSE {})

Init == hist = <<"rg_new R " \o PtsText(Ring, U), "rg_phole R " \o PtsText(Hole, U), "rg_addseeds R " \o PtsText(Seeds, U), "gen G R", "gen H R">> /\ kept = <<>>
Name == "M" \o Num(Len(kept))
Again == [i \in 1..Len(kept') |-> kept'[i]]
\* the same requests once more, under new names
Repeat == <<"constrained G Y1", "conforming H Y2", "restricted H Y3 " \o SegText(<<SegA>>), "restricted G Y4 " \o SegText(<<SegA, SegC>>)>>
Next ==
  /\ Len(hist) < 5 + Depth
  /\ \/ \E g \in {"G", "H"} : \E r \in Requests(g, Name) : hist' = Append(hist, r[1] \o Name \o r[2]) /\ kept' = Append(kept, "reread " \o Name)
     \/ \E c \in Changes : hist' = Append(hist, c) /\ kept' = kept
     \/ hist' = Append(hist, "voronoi R keep V" \o Num(Len(kept)) \o " W" \o Num(Len(kept))) /\ kept' = kept \o <<"vreread V" \o Num(Len(kept)), "vreread W" \o Num(Len(kept))>>
     \/ hist' = Append(hist, "info G I" \o Num(Len(kept))) /\ kept' = Append(kept, "infovor I" \o Num(Len(kept)))
  /\ (Len(hist') = 5 + Depth => Emit(hist' \o Repeat \o kept'))
Spec == Init /\ [][Next]_vars
=============================================================================
