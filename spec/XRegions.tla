------------------------------ MODULE XRegions -------------------------------
(***************************************************************************)
(* Histories of a region A and a copy B of it, by module Region: holes of  *)
(* every kind, seeds at every kind of place, removals, copies, new rings.  *)
(* The ring after a cut is computed by the model; the invariants say that  *)
(* the operators that judge a cut accept this ring and no other.           *)
(***************************************************************************)
EXTENDS Region, Scripts
CONSTANTS Depth, SeedSets

U == 1048576
S(r) == [i \in 1..Len(r) |-> <<r[i][1] * U, r[i][2] * U>>]
Base == S(<<<<0, 0>>, <<12, 0>>, <<12, 12>>, <<0, 12>>>>)
\* The other ring a region may be given: clockwise, with a notch on the right.
Other == S(<<<<0, 0>>, <<0, 12>>, <<12, 12>>, <<12, 8>>, <<10, 7>>, <<12, 5>>, <<12, 0>>>>)

Holes == [in1   |-> S(<<<<1, 2>>, <<3, 2>>, <<2, 5>>>>),
          in2   |-> S(<<<<4, 6>>, <<4, 9>>, <<5, 9>>, <<5, 7>>, <<8, 7>>, <<8, 6>>>>),
          cut1  |-> S(<<<<9, 10>>, <<15, 10>>, <<15, 15>>, <<9, 15>>>>),
          cut2  |-> S(<<<<4, -3>>, <<4, 3>>, <<7, 3>>, <<7, -3>>>>),
          split |-> S(<<<<-1, 10>>, <<8, 11>>, <<13, 9>>, <<13, 8>>, <<8, 10>>, <<-1, 9>>>>),
          cover |-> S(<<<<-2, -4>>, <<16, -4>>, <<16, 16>>, <<-2, 16>>>>),
          away  |-> S(<<<<20, 0>>, <<22, 1>>, <<21, 3>>>>)]
Names == {"in1", "in2", "cut1", "cut2", "split", "cover", "away"}
SeedPts == [plain |-> <<2, 8>>, corner |-> <<10, 11>>, in1 |-> <<2, 3>>, on1 |-> <<2, 2>>, ring |-> <<0, 5>>, out |-> <<20, 20>>, notch |-> <<5, 1>>]
SmallSets == {{"plain", "in1", "out"}, {"on1", "corner"}}
AllSets == {{"plain"}, {"corner"}, {"in1"}, {"on1"}, {"ring"}, {"out"}, {"notch"}, {"plain", "in1", "out"}, {"on1", "corner"}}
SeedSeq(s) == LET q == SetToSortSeq(s, LAMBDA x, y : SeedPts[x][1] < SeedPts[y][1] \/ (SeedPts[x][1] = SeedPts[y][1] /\ SeedPts[x][2] < SeedPts[y][2]))
              IN  [i \in 1..Len(q) |-> <<SeedPts[q[i]][1] * U, SeedPts[q[i]][2] * U>>]

-----------------------------------------------------------------------------
\* The ring A without the hole H, when one piece is left: from each place where A leaves H, along A to where it
\* enters H, and back along H.
CutRing(A0, H0) ==
  LET A == CCW(A0)  H == CCW(H0)
      C == Crossings(A, H)
      sa == AlongA(A, C)  sb == AlongB(H, C)
      exits == {u \in C : Orient(H[u.j], Next1(H, u.j), Next1(A, u.i)) < 0}
      \* the vertices of A after u up to the next crossing on A, and the vertices of H before y down to the previous one on H
      AfterA(u, y) == IF u.i = y.i /\ Before(A[u.i], Next1(A, u.i), u.x, y.x, 0) THEN <<>>
                      ELSE [k \in 1..(((y.i - u.i - 1 + Len(A)) % Len(A)) + 1) |-> A[((u.i + k - 1) % Len(A)) + 1]]
      BeforeH(y, z) == IF y.j = z.j /\ Before(H[y.j], Next1(H, y.j), z.x, y.x, 0) THEN <<>>
                       ELSE [k \in 1..(((y.j - z.j - 1 + Len(H)) % Len(H)) + 1) |-> H[((y.j - k + Len(H)) % Len(H)) + 1]]
      first == CHOOSE u \in exits : TRUE
      Step[n \in 1..Cardinality(exits)] ==
        LET u == IF n = 1 THEN first ELSE Step[n - 1].next
            y == Next1(sa, IndexIn(sa, u))  z == Prev1(sb, IndexIn(sb, y))
        IN  [pts |-> <<u.x>> \o AfterA(u, y) \o <<y.x>> \o BeforeH(y, z), next |-> z]
  IN  Cat([n \in 1..Cardinality(exits) |-> Step[n].pts])

\* In general position with the region as it is.
Clear(R, H) == /\ GeneralPosition(CCW(R.ring), CCW(H))
               /\ \A i \in 1..Len(R.holes) : LET o == R.holes[i] IN CrossPairs(CCW(o), CCW(H)) = {} /\ GeneralPosition(CCW(o), CCW(H)) /\ ~NestedIn(H, CCW(o)) /\ ~NestedIn(o, CCW(H))
AddHole(R, H) == LET hc == HoleCase(R, H) IN
  CASE hc = "inside" -> [R EXCEPT !.holes = Append(R.holes, H)]
    [] hc = "cuts" -> LET r == CutRing(R.ring, H) IN [R EXCEPT !.ring = r, !.idx = Trivial(Len(r))]
    [] OTHER -> R

VARIABLES A, B, path
vars == <<A, B, path>>
None == [ring |-> <<>>, holes |-> <<>>, seeds |-> <<>>, idx |-> <<>>]
Init == A = NewRegion(Base) /\ B = None /\ path = <<"rg_new A " \o PtsText(Base, 1)>>
Grid == Words(<<"36">> \o [k \in 1..36 |-> PtText(<<(((k - 1) % 6) * 2 + 1) * U, ((k - 1) \div 6) * 2 * U + U \div 2>>)])
Show == <<"rg_show A">> \o (IF B' = None THEN <<>> ELSE <<"rg_show B">>)
        \o <<"rg_ask A signed", "rg_ask A centroid", "rg_ask A diameter", "rg_ask A clockwise", "rg_ask A convex", "rg_where A " \o Grid>>

To(a, b, c) == A' = a /\ B' = b /\ path' = Append(path, c) /\ Emit(path' \o Show)
Next ==
  /\ Len(path) <= Depth
  /\ \/ \E h \in Names : Clear(A, Holes[h]) /\ To(AddHole(A, Holes[h]), B, "rg_phole A " \o PtsText(Holes[h], 1))
     \/ A.holes # <<>> /\ To(CleanHoles(A), B, "rg_cleanholes A")
     \/ \E s \in SeedSets : /\ \A p \in Range(SeedSeq(s)) : ~Marginal(A, p)
                            /\ To(AddSeeds(A, SeedSeq(s)), B, "rg_addseeds A " \o PtsText(SeedSeq(s), 1))
     \/ A.seeds # <<>> /\ To(CleanSeeds(A), B, "rg_cleanseeds A")
     \/ To(Mutate(A, Other), B, "rg_mutate A " \o PtsText(Other, 1))
     \/ To(A, A, "rg_copy B A")
     \/ B # None /\ B # A /\ To(B, B, "rg_assign A B")
     \/ B # None /\ B # A /\ To(A, A, "rg_assign B A")
Spec == Init /\ [][Next]_vars
View == <<A, B>>

-----------------------------------------------------------------------------
\* What cutting leaves: the judge accepts it, and rejects it with a vertex moved, missing, or the hole ignored.
Moved(r) == [r EXCEPT ![1] = <<r[1][1] + U \div 4, r[1][2] + U \div 8>>]
CutsRight == \A h \in Names : (Clear(A, Holes[h]) /\ HoleCase(A, Holes[h]) = "cuts") =>
  LET H == Holes[h]  r == CutRing(A.ring, H) IN
  /\ CutFaults(A.ring, H, r) = {} /\ CutFaults(A.ring, H, Reverse(r)) = {} /\ CutFaults(A.ring, Reverse(H), Tail(r) \o <<r[1]>>) = {}
  /\ CutFaults(A.ring, H, Tail(r)) # {} /\ CutFaults(A.ring, H, Moved(r)) # {} /\ CutFaults(A.ring, H, A.ring) # {} /\ CutFaults(A.ring, H, H) # {}
  \* the area: what is left, on a lattice of points that no side goes through, is what is inside of one and outside of the other
  /\ \A x, y \in 0..23 : LET v == <<x * (U \div 2) + 1001, y * (U \div 2) + 70707>>
                         IN  InsideRing(r, v) <=> InsideRing(A.ring, v) /\ ~InsideRing(H, v)
Classified == \A h \in Names : Clear(A, Holes[h]) =>
  CASE h \in {"in1", "in2"} -> HoleCase(A, Holes[h]) = "inside"
    [] h \in {"cut1", "cut2"} -> HoleCase(A, Holes[h]) = "cuts"
    [] h \in {"split", "cover"} -> HoleCase(A, Holes[h]) = "refused"
    [] h = "away" -> HoleCase(A, Holes[h]) = "outside"
SeedsInside == \A i \in 1..Len(A.seeds) : A.seeds[i] \in {<<p[1] * U, p[2] * U>> : p \in Range(SeedPts)}
=============================================================================
