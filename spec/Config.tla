------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The library configuration and what it acts on: circles and arcs (the    *)
(* grade), the comparison of points (the tolerance), cut regions (the      *)
(* scale); the precision acts on written meshes (module Files).  C23, C24. *)
(* State: [grade, scale, prec, tol], tol in units of 2^-30.                *)
(***************************************************************************)
EXTENDS Region

Defaults == [grade |-> 12, scale |-> 100000, prec |-> 6, tol |-> 10737]
ShownConf(ev) == [grade |-> ev.grade, scale |-> ev.scale, prec |-> ev.prec, tol |-> ev.tol]

C24If(ok, text) == IF ok THEN {} ELSE {<<"C24", text>>}
C23If(ok, text) == IF ok THEN {} ELSE {<<"C23", text>>}

Conf(c, ev) == [st |-> c, faults |-> C24If(ShownConf(ev) = c, "the settings are not the ones that were made")]

Set(c, ev) ==
  LET n == CASE ev.w = "grade" -> [c EXCEPT !.grade = ev.v]
             [] ev.w = "scale" -> [c EXCEPT !.scale = ev.v]
             [] ev.w \in {"prec", "pname"} -> [c EXCEPT !.prec = ev.v]
             [] ev.w = "tol" -> [c EXCEPT !.tol = ev.v]
  IN  [st |-> n, faults |-> C24If(ShownConf(ev) = n, "a setting does not read back, or changed another one")]
\* The names of the precisions.
Names(c, ev) == [st |-> c, faults |-> C24If(ev.small = 6 /\ ev.mid = 10 /\ ev.large = 16, "the named precisions are not 6, 10 and 16 digits")]

\* The point of the circle around c at the angle num / den of a full turn.
OnCircle(c, r, num, den) == <<c[1] + Turn(r, 4 * num + den, 4 * den), c[2] + Turn(r, num, den)>>
CircleShape(c, r, n, pts, t) == \A i \in 1..Len(pts) : Close(pts[i], OnCircle(c, r, i - 1, n), t)
CirclePts(conf, ev) ==
  C24If(Len(ev.pts) = conf.grade, "a circle does not have the configured number of points")
  \cup C23If(Len(ev.pts) = conf.grade /\ CircleShape(ev.c, ev.rad, conf.grade, ev.pts, 2), "the points of a circle are not at equal steps on it")

ACircle(c, ev) == [st |-> c, faults |-> CirclePts(c, ev)]
CHole(c, ev) ==
  LET n == Len(ev.pts) IN
  [st |-> c, faults |-> CirclePts(c, ev)
     \cup C23If(Close(ev.hc, ev.c, 0), "the center of a circular hole is not the one of the circle")
     \cup C23If(Len(ev.segs) = n /\ {{s[1], s[2]} : s \in Range(ev.segs)} = {{i, (i + 1) % n} : i \in 0..(n - 1)},
                "the sides of a circular hole do not close its ring")]
Arc(c, ev) ==
  LET g == c.grade IN
  [st |-> c, faults |->
     C24If(Len(ev.pts) = g + 1, "an arc does not have the configured number of steps")
     \cup C23If(/\ Len(ev.pts) = g + 1
                /\ \A i \in 1..Len(ev.pts) : Close(ev.pts[i], OnCircle(ev.c, ev.rad, ev.d1 * g + (ev.d2 - ev.d1) * (i - 1), 360 * 64 * g), 2),
                "the points of an arc are not at equal steps from its first to its last angle")]

\* a comes before b: further to the left, or below when neither is.
Comes(a, b, lim) == \/ b[1] - a[1] > lim
                    \/ AbsV(a[1] - b[1]) <= lim /\ b[2] - a[2] > lim
\* Points closer than the tolerance in both coordinates are the same (lattice of p = 20).
PEq(c, ev) ==
  LET lim == c.tol \div 1024
      same == AbsV(ev.a[1] - ev.b[1]) <= lim /\ AbsV(ev.a[2] - ev.b[2]) <= lim
  IN  [st |-> c, faults |-> C24If((ev.eq = 1) <=> same, "points are not compared with the configured tolerance")
                            \cup C24If((ev.found = 1) <=> same, "a point is not looked up with the configured tolerance")
                            \cup C24If(ev.less[1] = 1 <=> Comes(ev.a, ev.b, lim), "points are not ordered with the configured tolerance")
                            \cup C24If(ev.less[2] = 1 <=> Comes(ev.b, ev.a, lim), "points are not ordered with the configured tolerance")
                            \cup C24If(ev.segs = ev.eq, "segments are not compared as their ends are")]
\* Points within an eighth of the tolerance of a segment are on it, and points further than eight times
\* the tolerance are not (its length is between a half and four, and what is compared is an area).
TNear(c, ev) ==
  LET lim == c.tol \div 1024  p == ev.p IN
  [st |-> c, faults |-> C24If(OnSeg(p[1], p[2], p[3], lim \div 8) => \A k \in 1..Len(ev.ans) : ev.ans[k] = 1, "a point on a segment, up to the configured tolerance, is not found there")
                        \cup C24If(~OnSeg(p[1], p[2], p[3], 8 * lim) => \A k \in 1..Len(ev.ans) : ev.ans[k] = 0, "a point is found on a segment that it is further away from than the configured tolerance")]
TMeet(c, ev) ==
  LET lim == c.tol \div 1024  p == ev.p IN
  [st |-> c, faults |-> C24If(Touching(p[1], p[2], p[3], p[4], lim \div 8) => ev.ans = <<1, 1>>, "segments that touch, up to the configured tolerance, do not meet")
                        \cup C24If(~Touching(p[1], p[2], p[3], p[4], 8 * lim) => ev.ans = <<0, 0>>, "segments meet that are further apart than the configured tolerance")]
TAng(c, ev) ==
  LET lim == c.tol \div 1024 IN
  [st |-> c, faults |-> C24If(ev.less = <<IF ev.b - ev.a > lim THEN 1 ELSE 0, IF ev.a - ev.b > lim THEN 1 ELSE 0>>, "angles are not compared with the configured tolerance")]

\* A region cut by a hole has its vertices at multiples of 1 / scale.
OnScale(v, s) == LET n == Scale(v, s, 20) IN \E k \in {n, n + 1} : AbsV(MulDiv(k, 1048576, s) - v) <= 1
CutCorners(A, H) ==
  {v \in Range(A) : ~InsideRing(H, v)} \cup {v \in Range(H) : InsideRing(A, v)} \cup {x.x : x \in Crossings(A, H)}
CCut(c, ev) ==
  LET A == CCW(ev.ring)  H == CCW(ev.hole)
      t == 16 + MulDiv(4, 1048576, c.scale)
      all == CutCorners(A, H)
  IN  [st |-> c, faults |->
         C24If(ev.thrown = "" /\ \A i \in 1..Len(ev.out) : OnScale(ev.out[i][1], c.scale) /\ OnScale(ev.out[i][2], c.scale),
               "a cut region is not rounded to the configured scale")
         \cup C24If(ev.thrown # "" \/ (/\ \A v \in all : \E i \in 1..Len(ev.out) : Close(ev.out[i], v, t)
                                       /\ \A i \in 1..Len(ev.out) : \E v \in all : Close(ev.out[i], v, t)),
                    "a cut region is further off than the configured scale explains")]

ConfEvents == {"conf", "cset", "cnames", "circle", "chole", "arc", "peq", "tnear", "tmeet", "tang", "ccut"}
ConfProps(cmd) == IF cmd \in {"circle", "chole", "arc"} THEN {"C23", "C24"} ELSE {"C24"}
ConfStep(c, ev) ==
  CASE ev.e = "conf" -> Conf(c, ev)
    [] ev.e = "cset" -> Set(c, ev)
    [] ev.e = "cnames" -> Names(c, ev)
    [] ev.e = "circle" -> ACircle(c, ev)
    [] ev.e = "chole" -> CHole(c, ev)
    [] ev.e = "arc" -> Arc(c, ev)
    [] ev.e = "peq" -> PEq(c, ev)
    [] ev.e = "tnear" -> TNear(c, ev)
    [] ev.e = "tmeet" -> TMeet(c, ev)
    [] ev.e = "tang" -> TAng(c, ev)
    [] ev.e = "ccut" -> CCut(c, ev)
=============================================================================
