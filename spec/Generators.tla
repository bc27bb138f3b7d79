----------------------------- MODULE Generators -----------------------------
(***************************************************************************)
(* Functions of one coordinate, which may carry a state from one call to   *)
(* the next, and the point generators made of them (C14, C15).             *)
(* State: fns, name -> [def, s], a function and its state.                 *)
(*   const, uni n/2^e, sin, cos   no state                                 *)
(*   disp d      whether the next value is displaced                       *)
(*   alt         [seen, delta, shift]: the values seen in this batch, the  *)
(*               distance of the first two of a batch, whether this batch  *)
(*               is shifted                                                *)
(*   rint, rdbl  random: no state that can be observed                     *)
(*   nint, ndbl  noise over the function def.f.f; the state is that one's  *)
(* Coordinates are lattice units.  PU is one unit of length.               *)
(***************************************************************************)
EXTENDS Planar, TLC

GenInit == [fns |-> <<>>, pgs |-> <<>>, drawn |-> <<>>]

InitFn(def) == CASE def.k = "disp" -> [shift |-> TRUE]
                 [] def.k = "alt" -> [seen |-> <<>>, delta |-> 0, shift |-> FALSE]
                 [] OTHER -> [none |-> 0]

Half(d) == d \div 2      \* displacements are even numbers of units

\* The values v that a function may have at x: the intervals v.iv, of the integers only (multiples of
\* a unit of length away from v.base) when v.step; up to v.t.  And the states after.
One(y, t) == [iv |-> {<<y, y>>}, base |-> 0, step |-> FALSE, t |-> t]

AltStep(s, x) ==
  LET delta == IF Len(s.seen) = 1 THEN AbsV(s.seen[1] - x) ELSE s.delta
      again == \E i \in 1..(Len(s.seen) - 1) : s.seen[i] = x
      last == Len(s.seen) > 0 /\ s.seen[Len(s.seen)] = x
  IN  IF again THEN [seen |-> <<x>>, delta |-> delta, shift |-> ~s.shift]
      ELSE [seen |-> IF last THEN s.seen ELSE Append(s.seen, x), delta |-> delta, shift |-> s.shift]

\* p is the exponent of the lattice: PU = 2^p.  Apply: [v, fns].
RECURSIVE Apply(_, _, _, _)
Apply(p, fns, f, x) ==
  LET d == fns[f].def
      s == fns[f].s
  IN  CASE d.k = "const" -> [v |-> One(x, 1), fns |-> fns]
        [] d.k = "uni" -> [v |-> One(Scale(x, d.n, d.e), 2), fns |-> fns]
        [] d.k = "sin" -> [v |-> One(Wave(d.a, d.fn, x, p + d.fk, d.ph), 2), fns |-> fns]
        [] d.k = "cos" -> [v |-> One(Wave(d.a, d.fn, x, p + d.fk, d.ph + 90 * 64), 2), fns |-> fns]
        [] d.k = "disp" -> [v |-> One(IF s.shift THEN x + Half(d.d) ELSE x, 1),
                            fns |-> [fns EXCEPT ![f].s = [shift |-> ~s.shift]]]
        [] d.k = "alt" -> LET n == AltStep(s, x)
                          IN  [v |-> One(IF n.shift THEN x + Half(n.delta) ELSE x, 1), fns |-> [fns EXCEPT ![f].s = n]]
        [] d.k \in {"rint", "rdbl"} -> [v |-> [iv |-> {<<d.lo, d.hi>>}, base |-> 0, step |-> d.k = "rint", t |-> 1], fns |-> fns]
        [] d.k = "ref" -> Apply(p, fns, d.f, x)
        [] d.k \in {"nint", "ndbl"} ->
             LET r == Apply(p, fns, d.f.f, x)
                 y == (CHOOSE i \in r.v.iv : TRUE)[1]
             IN  [v |-> [iv |-> {<<y + d.lo, y + d.hi>>, <<y - d.hi, y - d.lo>>}, base |-> y, step |-> d.k = "nint", t |-> r.v.t + 1],
                  fns |-> r.fns]

Allowed(p, v, y) ==
  /\ \E i \in v.iv : y >= i[1] - v.t /\ y <= i[2] + v.t
  /\ v.step => LET r == (y - v.base) % (2 ^ p) IN r <= v.t \/ r >= 2 ^ p - v.t

RandomFn(d) == d.k \in {"rint", "rdbl", "nint", "ndbl"}
PropOf(d) == IF RandomFn(d) THEN "C15" ELSE "C14"

Fn(st, ev) == [st |-> [st EXCEPT !.fns = (ev.f :> [def |-> ev.def, s |-> InitFn(ev.def)]) @@ st.fns], faults |-> {}]

RECURSIVE ApplyAll(_, _, _, _, _, _)
ApplyAll(p, fns, f, xs, ys, i) ==
  IF i > Len(xs) THEN [fns |-> fns, bad |-> {}]
  ELSE LET r == Apply(p, fns, f, xs[i])
           n == ApplyAll(p, r.fns, f, xs, ys, i + 1)
       IN  [fns |-> n.fns, bad |-> n.bad \cup IF Allowed(p, r.v, ys[i]) THEN {} ELSE {i}]

\* In many draws every integer, or both directions of the noise, come up (1 - 2^-40 at least).
Reached(p, fns, d, xs, ys) ==
  CASE d.k = "rint" /\ (d.hi - d.lo) \div (2 ^ p) < 8 /\ Len(xs) >= 300 ->
         \A n \in (-((-d.lo) \div (2 ^ p)))..(d.hi \div (2 ^ p)) : \E i \in 1..Len(ys) : AbsV(ys[i] - n * 2 ^ p) <= 1
    [] d.k \in {"nint", "ndbl"} /\ d.lo > 0 /\ Len(xs) >= 300 /\ fns[d.f.f].def.k = "const" ->
         (\E i \in 1..Len(ys) : ys[i] > xs[i]) /\ (\E i \in 1..Len(ys) : ys[i] < xs[i])
    [] OTHER -> TRUE

ApplyEv(st, ev, p) ==
  LET d == st.fns[ev.f].def
      r == ApplyAll(p, st.fns, ev.f, ev.xs, ev.ys, 1)
  IN  [st |-> [st EXCEPT !.fns = r.fns],
       faults |-> (IF r.bad = {} THEN {} ELSE {<<PropOf(d), "function " \o d.k \o ": a value that it does not have">>})
                  \cup (IF Reached(p, st.fns, d, ev.xs, ev.ys) THEN {} ELSE {<<PropOf(d), "function " \o d.k \o ": values that never come up">>})]

\* Plain random integers.
Draw(ev) ==
  (IF \A i \in 1..Len(ev.out) : ev.out[i] \in (ev.lo)..(ev.hi) THEN {} ELSE {<<"C15", "a random integer outside of its bounds">>})
  \cup (IF Len(ev.out) >= 300 /\ ev.hi - ev.lo \in 0..7 /\ Range(ev.out) # (ev.lo)..(ev.hi) THEN {<<"C15", "random integers that never come up">>} ELSE {})

Pg(st, ev) ==
  LET both == ev.def.k = "both"
  IN  [st |-> IF both THEN st ELSE [st EXCEPT !.pgs = (ev.g :> ev.def) @@ st.pgs],
       faults |-> IF both <=> ev.thrown = "invalid_argument" THEN {} ELSE {<<"C14", "a generator of one function for both variables">>}]

-----------------------------------------------------------------------------
\* The grid: rows from the lowest up, each from left to right.
XAt(lo, hi, n, j) == IF n = 1 THEN lo ELSE lo + MulDiv(j, hi - lo, n - 1)
Even(lo, hi, n) == n = 1 \/ (hi - lo) % (n - 1) = 0
\* How far off a function can be when the position is rounded to the lattice.
Slack(p, fns, f) == LET d == fns[f].def IN
   CASE d.k = "uni" -> AbsV(d.n) + 1
     [] d.k \in {"sin", "cos"} -> AbsV(Scale(Scale(d.a, 4, p), d.fn, d.fk)) + 1
     [] OTHER -> 2

RECURSIVE GridFrom(_, _, _, _, _, _)
GridFrom(p, fns, g, ev, b, k) ==      \* b: <<xlo, ylo, xhi, yhi>>; k: the points before
  IF k = ev.nx * ev.ny THEN [fns |-> fns, bad |-> {}]
  ELSE LET j == k % ev.nx
           i == k \div ev.nx
           x == XAt(b[1], b[3], ev.nx, j)
           y == XAt(b[2], b[4], ev.ny, i)
           q == ev.out[ev.pre + k + 1]
           ex == IF Even(b[1], b[3], ev.nx) THEN 0 ELSE 1
           ey == IF Even(b[2], b[4], ev.ny) THEN 0 ELSE 1
           Wider(v, e, f) == [v EXCEPT !.t = v.t + e * Slack(p, fns, f)]
       IN  IF g.k = "xy" THEN
             LET rx == Apply(p, fns, g.fx.f, x)
                 ry == Apply(p, rx.fns, g.fy.f, y)
                 n == GridFrom(p, ry.fns, g, ev, b, k + 1)
             IN  [fns |-> n.fns, bad |-> n.bad \cup (IF Allowed(p, Wider(rx.v, ex, g.fx.f), q[1]) THEN {} ELSE {g.fx.f})
                                               \cup (IF Allowed(p, Wider(ry.v, ey, g.fy.f), q[2]) THEN {} ELSE {g.fy.f})]
           ELSE
             LET onx == g.k = "x"
                 u == IF onx THEN x ELSE y          \* the variable, which is kept
                 w == IF onx THEN y ELSE x          \* the other coordinate, which is displaced
                 eu == IF onx THEN ex ELSE ey
                 r == Apply(p, fns, g.f.f, u)
                 n == GridFrom(p, r.fns, g, ev, b, k + 1)
                 qu == IF onx THEN q[1] ELSE q[2]
                 qw == IF onx THEN q[2] ELSE q[1]
             IN  [fns |-> n.fns, bad |-> n.bad \cup (IF AbsV(qu - u) <= 1 /\ Allowed(p, [Wider(r.v, eu, g.f.f) EXCEPT !.t = @ + 1], qw - w) THEN {} ELSE {g.f.f})]

Grid(st, ev, p) ==
  LET g == st.pgs[ev.g]
      b == <<IF ev.box[1] < ev.box[3] THEN ev.box[1] ELSE ev.box[3], IF ev.box[2] < ev.box[4] THEN ev.box[2] ELSE ev.box[4],
             IF ev.box[1] < ev.box[3] THEN ev.box[3] ELSE ev.box[1], IF ev.box[2] < ev.box[4] THEN ev.box[4] ELSE ev.box[2]>>
      counts == Len(ev.out) = ev.pre + ev.nx * ev.ny
      before == \A i \in 1..ev.pre : i <= Len(ev.out) => ev.out[i] = <<7 * (i - 1) + 1, i - 1>>
      r == GridFrom(p, st.fns, g, ev, b, 0)
      random == \E f \in DOMAIN st.fns : RandomFn(st.fns[f].def)
  IN  IF ~counts THEN [st |-> st, faults |-> {<<"C14", "not as many points as were asked for">>}]
      ELSE [st |-> [st EXCEPT !.fns = r.fns],
            faults |-> (IF before THEN {} ELSE {<<"C14", "the points that were there before changed">>})
                       \cup {<<PropOf(st.fns[f].def), "a point that is not the one of the grid, under function " \o st.fns[f].def.k>> : f \in r.bad}]

GenEvents == {"fn", "apply", "uint", "pg", "grid"}
GenProps(cmd) == IF cmd = "uint" THEN {"C15"} ELSE IF cmd = "apply" THEN {"C14", "C15"} ELSE {"C14"}
GenStep(st, ev, p) ==
  CASE ev.e = "fn" -> Fn(st, ev)
    [] ev.e = "apply" -> ApplyEv(st, ev, p)
    [] ev.e = "uint" -> [st |-> st, faults |-> Draw(ev)]
    [] ev.e = "pg" -> Pg(st, ev)
    [] ev.e = "grid" -> Grid(st, ev, p)
=============================================================================
