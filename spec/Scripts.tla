------------------------------ MODULE Scripts --------------------------------
(***************************************************************************)
(* Scenarios written by models: the modules X... explore a model of the    *)
(* client and the library and print, for every transition they take, the   *)
(* commands that lead the library there ("SCEN|command;command;...").      *)
(* The driver replays them, and Trace judges what the library did.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Num(x) == ToString(x)
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Words(ss) == JoinFrom(ss, " ", 1)
PtText(p) == Num(p[1]) \o " " \o Num(p[2])
\* Points with their number, in units of u.
PtsText(r, u) == Words(<<Num(Len(r))>> \o [i \in 1..Len(r) |-> PtText(<<r[i][1] * u, r[i][2] * u>>)])
IntsText(s) == Words(<<Num(Len(s))>> \o [i \in 1..Len(s) |-> Num(s[i])])
Emit(cmds) == PrintT("SCEN|" \o JoinFrom(cmds, ";", 1))
=============================================================================
