----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Unique lists (C20), and the identity of points and segments in          *)
(* comparisons and as keys of the neighbour maps (C21).                    *)
(*                                                                         *)
(* State: [ul |-> name -> sequence, pm |-> name -> sequence of entries     *)
(*         <<point, neighbours>>, sm |-> name -> set of entries            *)
(*         <<{i, j}, n1, n2>>].                                            *)
(* Elements are pairs; those of kind "pt" are the same when both of their  *)
(* coordinates differ by less than the tolerance, lim lattice units.  The  *)
(* scenarios use points that are either this near or far apart, for then   *)
(* nearness is an equivalence.                                             *)
(***************************************************************************)
EXTENDS Planar

ContInit == [ul |-> <<>>, pm |-> <<>>, sm |-> <<>>]
ContEvents == {"ul", "pm", "sm", "pcmp", "icmp"}
ContProps(cmd) == IF cmd = "ul" THEN {"C20", "C21"} ELSE {"C21"}

Fault(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Same(kind, a, b, lim) == IF kind = "int" THEN a = b ELSE Close(a, b, lim)
Holds(s, kind, x, lim) == \E i \in 1..Len(s) : Same(kind, s[i], x, lim)
\* pos is the position of x in s: the first one of them, if insertions were forced
At(s, kind, x, lim, pos) == pos \in 0..(Len(s) - 1) /\ Same(kind, s[pos + 1], x, lim) /\ \A i \in 1..pos : ~Same(kind, s[i], x, lim)

\* Inserting the elements xs one after the other: the list, and the position that each one is reported at
\* when it was not there before.
RECURSIVE Pushed(_, _, _, _)
Pushed(s, kind, xs, lim) ==
  IF xs = <<>> THEN s ELSE Pushed(IF Holds(s, kind, Head(xs), lim) THEN s ELSE Append(s, Head(xs)), kind, Tail(xs), lim)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* The list s after the operation op with the elements arg, or the other list o.  (Of several equal elements,
\* which there are if insertions were forced, this removes the first;
\* another one of them is accepted too.)
UlAfter(s, o, op, k, arg, lim) ==
  CASE op \in {"new", "clear"} -> <<>>
    [] op \in {"push", "list"} -> Pushed(s, k, arg, lim)
    [] op = "from" -> Pushed(s, k, o, lim)
    [] op = "force" -> Append(s, arg[1])
    [] op = "pop" -> Tail(s)
    [] op \in {"copy", "assign"} -> o
    [] op = "del" /\ Holds(s, k, arg[1], lim) -> Without(s, CHOOSE i \in 1..Len(s) : Same(k, s[i], arg[1], lim) /\ \A j \in 1..(i - 1) : ~Same(k, s[j], arg[1], lim))
    [] OTHER -> s

Ul(st, ev, lim) ==
  LET k == ev.kind
      s == IF ev.n \in DOMAIN st.ul THEN st.ul[ev.n] ELSE <<>>
      o == IF ev.o # "" THEN st.ul[ev.o] ELSE <<>>
      x == ev.arg[1]
      xs == IF ev.op = "from" THEN o ELSE ev.arg
      after == ev.list
      pushed == Pushed(s, k, xs, lim)
      new == IF ev.op = "del" /\ \E i \in 1..Len(s) : Same(k, s[i], x, lim) /\ Without(s, i) = after THEN after
             ELSE UlAfter(s, o, ev.op, k, ev.arg, lim)
      ret == CASE ev.op \in {"push", "list", "from"} -> /\ Len(ev.ret) = Len(xs)
                                                        /\ \A i \in 1..Len(xs) : At(pushed, k, xs[i], lim, ev.ret[i])
               [] ev.op = "force" -> ev.ret = <<Len(s)>>
               [] ev.op = "index" -> IF Holds(s, k, x, lim) THEN At(s, k, x, lim, ev.ret[1]) ELSE ev.ret = <<-1>>
               [] ev.op = "has" -> ev.ret = <<IF Holds(s, k, x, lim) THEN 1 ELSE 0>>
               [] ev.op = "common" -> ev.ret = <<IF \E e \in Range(o) : Holds(s, k, e, lim) THEN 1 ELSE 0>>
               [] ev.op = "eq" -> ev.ret = <<IF Len(s) = Len(o) /\ \A i \in 1..Len(s) : Same(k, s[i], o[i], lim) THEN 1 ELSE 0>>
               [] OTHER -> TRUE
      F(ok, text) == Fault("C20", ok, text) \cup (IF k = "pt" THEN Fault("C21", ok, text) ELSE {})
  IN  [st |-> [st EXCEPT !.ul = With(st.ul, ev.n, new)],
       faults |-> F(after = new, "a unique list does not hold its elements in insertion order after " \o ev.op)
                  \cup F(ret, "a unique list answers " \o ev.op \o " with something else than it holds")
                  \cup F(ev.size = Len(ev.list) /\ ev.all = ev.list /\ ev.ref = ev.list, "a unique list shows different contents")]

-----------------------------------------------------------------------------
\* The entry of point p, as its position; 0 if there is none.
PosOf(m, p, lim) == IF \E i \in 1..Len(m) : Close(m[i][1], p, lim) THEN CHOOSE i \in 1..Len(m) : Close(m[i][1], p, lim) ELSE 0
Pm(st, ev, lim) ==
  LET m == IF ev.n \in DOMAIN st.pm THEN st.pm[ev.n] ELSE <<>>
      i == PosOf(m, ev.at, lim)
      new == CASE ev.op = "new" -> <<>>
               [] ev.op \in {"ins", "insl"} -> IF i = 0 THEN Append(m, <<ev.at, ev.ns>>) ELSE [m EXCEPT ![i] = <<m[i][1], m[i][2] \o ev.ns>>]
               [] OTHER -> m
      \* an element that was inserted twice may be there once or twice
      AsGiven(s, g) == Range(s) = Range(g) /\ (Cardinality(Range(g)) = Len(g) => Len(s) = Len(g))
      shown == Len(ev.map) = Len(new) /\ ev.size = Len(new) /\
               \A e \in Range(new) : \E d \in Range(ev.map) : Close(d[1], e[1], lim) /\ AsGiven(d[2], e[2])
  IN  [st |-> [st EXCEPT !.pm = With(st.pm, ev.n, new)],
       faults |-> Fault("C21", shown, "a point map does not have the neighbours that were inserted")
                  \cup Fault("C21", ev.op = "get" /\ i # 0 => AsGiven(ev.ret, m[i][2]), "a point map returns other neighbours than were inserted")]

KeyOf(k) == {k[1], k[2]}
Sm(st, ev) ==
  IF ev.op = "copy" THEN
    [st |-> [st EXCEPT !.sm = With(st.sm, ev.n, st.sm[ev.key])],
     faults |-> Fault("C21", {<<KeyOf(e), e[3], e[4]>> : e \in Range(ev.map)} = st.sm[ev.key] /\ ev.size = Cardinality(st.sm[ev.key]), "a copy of a segment map has other entries")]
  ELSE
  LET m == IF ev.n \in DOMAIN st.sm THEN st.sm[ev.n] ELSE {}
      key == KeyOf(ev.key)
      old == {e \in m : e[1] = key}
      new == CASE ev.op = "new" -> {}
               [] ev.op = "ins" -> (m \ old) \cup {IF old = {} THEN <<key, ev.ns[1], -1>> ELSE LET e == CHOOSE x \in old : TRUE IN <<key, e[2], ev.ns[1]>>}
               [] ev.op \in {"insn", "set"} -> (m \ old) \cup {<<key, ev.ns[1], ev.ns[2]>>}
               [] OTHER -> m
      ret == CASE ev.op = "get" -> old # {} => {<<key, ev.ret[1], ev.ret[2]>>} = old
               [] ev.op = "has" -> ev.ret = <<IF old # {} THEN 1 ELSE 0>>
               [] OTHER -> TRUE
  IN  [st |-> [st EXCEPT !.sm = With(st.sm, ev.n, new)],
       faults |-> Fault("C21", {<<KeyOf(e), e[3], e[4]>> : e \in Range(ev.map)} = new /\ ev.size = Cardinality(new) /\ Len(ev.map) = ev.size,
                        "a segment map does not have the neighbours that were inserted")
                  \cup Fault("C21", ret, "a segment map answers with other neighbours than were inserted")]

\* Equality is the identity of points; the order is a strict order of the different ones.
PCmp(st, ev, lim) ==
  LET N == 1..Len(ev.pts)
      eq == Range(ev.eq)
      lt == Range(ev.lt)
      same(i, j) == Close(ev.pts[i], ev.pts[j], lim)
  IN  [st |-> st, faults |->
         Fault("C21", \A i, j \in N : <<i, j>> \in eq <=> same(i, j), "points are equal that differ, or the other way round")
         \cup Fault("C21", \A i, j \in N : IF same(i, j) THEN <<i, j>> \notin lt ELSE (<<i, j>> \in lt) # (<<j, i>> \in lt), "the order of points does not go with their equality")
         \cup Fault("C21", \A i, j, k \in N : (<<i, j>> \in lt /\ <<j, k>> \in lt) => <<i, k>> \in lt, "the order of points is not transitive")]
ICmp(st, ev) ==
  LET N == 1..Len(ev.in)
      Same2(i, j) == {ev.in[i][1], ev.in[i][2]} = {ev.in[j][1], ev.in[j][2]}
      Right(S) == \A i, j \in N : <<i, j>> \in S <=> Same2(i, j)
      Covers(S) == \A i, j \in N : Same2(i, j) => <<i, j>> \in S
      lt == Range(ev.lt)
  IN  [st |-> st, faults |->
         Fault("C21", Right(Range(ev.is)) /\ Covers(Range(ev.hs)), "segments of indexes are not the same in both directions, or different ones are")
         \cup Fault("C21", Right(Range(ev.ng)) /\ Covers(Range(ev.nh)), "neighbours of a segment are not the same in both orders, or different ones are")
         \cup Fault("C21", Right(Range(ev.ed)), "edges are not the same in both directions, or different ones are")
         \cup Fault("C21", Right(Range(ev.ke)), "edge keys are not the same in both directions, or different ones are")
         \cup Fault("C21", /\ \A i, j \in N : ev.in[i] # ev.in[j] => (<<i, j>> \in lt) # (<<j, i>> \in lt)
                           /\ \A i, j \in N : ev.in[i] = ev.in[j] => <<i, j>> \notin lt
                           /\ \A i, j, k \in N : (<<i, j>> \in lt /\ <<j, k>> \in lt) => <<i, k>> \in lt, "the order of segments is not a strict order")]

ContStep(st, ev, lim) ==
  CASE ev.e = "ul" -> Ul(st, ev, lim)
    [] ev.e = "pm" -> Pm(st, ev, lim)
    [] ev.e = "sm" -> Sm(st, ev)
    [] ev.e = "pcmp" -> PCmp(st, ev, lim)
    [] ev.e = "icmp" -> ICmp(st, ev)
=============================================================================
