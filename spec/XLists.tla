------------------------------- MODULE XLists --------------------------------
(***************************************************************************)
(* Two unique lists A and B, by module Containers: every reachable pair of *)
(* contents with at most MaxLen elements each, and every operation in it.  *)
(***************************************************************************)
EXTENDS Containers, Scripts
CONSTANTS Kind, Elems, MaxLen

IntElems == {<<0, 0>>, <<1, 0>>, <<-7, 0>>}
\* The first two are the same point, within the tolerance.
PtElems == {<<1048576, 0>>, <<1048580, -3>>, <<0, 2097152>>}
Lim == 10

VARIABLES a, b, path
vars == <<a, b, path>>
Init == a = <<>> /\ b = <<>> /\ path = <<"ul " \o Kind \o " new A", "ul " \o Kind \o " new B">>

Cmd(op, n, arg) == "ul " \o Kind \o " " \o op \o " " \o n \o arg
AskAll == LET es == SetToSeq(Elems) IN
  [i \in 1..(4 * Len(es)) |-> Cmd(IF i % 2 = 0 THEN "index" ELSE "has", IF (i - 1) % 4 < 2 THEN "A" ELSE "B", " " \o PtText(es[(i - 1) \div 4 + 1]))]
  \o <<Cmd("common", "A", " B"), Cmd("common", "B", " A"), Cmd("eq", "A", " B"), Cmd("eq", "B", " A")>>

\* One operation on the list n with contents s; the other one is m with contents o.
Ops(s, o, n, m) ==
  {[op |-> p, arg |-> <<e>>, txt |-> " " \o PtText(e)] : p \in {"push", "force", "del"}, e \in Elems}
  \cup {[op |-> "list", arg |-> <<e, f>>, txt |-> " 2 " \o PtText(e) \o " " \o PtText(f)] : e, f \in Elems}
  \cup {[op |-> p, arg |-> <<>>, txt |-> " " \o m] : p \in {"from", "copy", "assign"}}
  \cup {[op |-> p, arg |-> <<>>, txt |-> ""] : p \in {"clear"} \cup (IF s = <<>> THEN {} ELSE {"pop"})}

Do(s, o, n, m) == \E c \in Ops(s, o, n, m) :
  LET new == UlAfter(s, o, c.op, Kind, c.arg, Lim)
      p == Append(path, Cmd(c.op, n, c.txt))
  IN  /\ Len(new) <= MaxLen
      /\ IF n = "A" THEN a' = new /\ b' = o ELSE b' = new /\ a' = o
      /\ path' = p
      /\ Emit(p \o AskAll)
Next == Do(a, b, "A", "B") \/ Do(b, a, "B", "A")
Spec == Init /\ [][Next]_vars
View == <<a, b>>

\* Without forced insertions no element is there twice: the operators keep what the property says.
Once(s) == \A i, j \in 1..Len(s) : i # j => ~Same(Kind, s[i], s[j], Lim)
Keeps == \A e \in Elems : /\ Once(a) => Once(UlAfter(a, b, "push", Kind, <<e>>, Lim)) /\ Once(UlAfter(a, b, "del", Kind, <<e>>, Lim))
                          /\ Holds(UlAfter(a, b, "push", Kind, <<e>>, Lim), Kind, e, Lim)
                          /\ Once(a) => ~Holds(UlAfter(a, b, "del", Kind, <<e>>, Lim), Kind, e, Lim)
=============================================================================
