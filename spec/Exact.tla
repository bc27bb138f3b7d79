------------------------------- MODULE Exact --------------------------------
(***************************************************************************)
(* The operators of ExactRef, evaluated by TLC with unbounded integers     *)
(* (Exact.java overrides the operators of this module by name).            *)
(***************************************************************************)
EXTENDS Integers, Sequences
Ref == INSTANCE ExactRef

Close(a, b, t) == Ref!Close(a, b, t)
Orient(a, b, c) == Ref!Orient(a, b, c)
OrientT(a, b, c, t) == Ref!OrientT(a, b, c, t)
OnSeg(a, b, v, t) == Ref!OnSeg(a, b, v, t)
InsideCircle(a, b, c, d, t) == Ref!InsideCircle(a, b, c, d, t)
Obtuse(a, o, b, t) == Ref!Obtuse(a, o, b, t)
Nearer(v, s, o, t) == Ref!Nearer(v, s, o, t)
Area2Sign(r) == Ref!Area2Sign(r)
SameArea(as, bs, t) == Ref!SameArea(as, bs, t)
Area2Is(r, w, t) == Ref!Area2Is(r, w, t)
DistIs(a, b, w, k, t) == Ref!DistIs(a, b, w, k, t)
CentroidIs(r, c, t) == Ref!CentroidIs(r, c, t)
Crossing(a, b, c, d, t) == Ref!Crossing(a, b, c, d, t)
Touching(a, b, c, d, t) == Ref!Touching(a, b, c, d, t)
IsCommonPoint(a, b, c, d, v, t) == Ref!IsCommonPoint(a, b, c, d, v, t)
CrossPoint(a, b, c, d) == Ref!CrossPoint(a, b, c, d)
InsideRing(r, v) == Ref!InsideRing(r, v)
OnRing(r, v, t) == Ref!OnRing(r, v, t)
Before(c, d, a, b, t) == Ref!Before(c, d, a, b, t)
MulDiv(a, b, d) == Ref!MulDiv(a, b, d)
Scale(x, n, e) == Ref!Scale(x, n, e)
DistCmp(a, b, c, d) == Ref!DistCmp(a, b, c, d)
MeanIs(r, c, t) == Ref!MeanIs(r, c, t)
DecimalIs(d, k, x) == Ref!DecimalIs(d, k, x)
DecimalNear(d, k, x, s) == Ref!DecimalNear(d, k, x, s)

\* Two functions that integers can not define; Exact.java evaluates them, rounded.
\* a times the sine of num / den of a full turn.
Turn(a, num, den) == CHOOSE n \in Int : TRUE
\* a * sin(pi * n * x / 2^e  +  ph / 64 degrees).
Wave(a, n, x, e, ph) == CHOOSE k \in Int : TRUE
=============================================================================
