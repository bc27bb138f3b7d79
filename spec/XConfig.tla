------------------------------- MODULE XConfig -------------------------------
(***************************************************************************)
(* Histories of settings and of what depends on them.  The settings are    *)
(* those of module Config.                                                 *)
(***************************************************************************)
EXTENDS Config, Scripts
CONSTANTS Depth, Uses

U == 1048576
Sets == {[w |-> "grade", v |-> 3], [w |-> "grade", v |-> 7], [w |-> "scale", v |-> 64], [w |-> "scale", v |-> 1000], [w |-> "prec", v |-> 2], [w |-> "pname", v |-> 16],
         [w |-> "tol", v |-> 1048579], [w |-> "tol", v |-> 4099]}
SetText(s) == Words(<<"cset", s.w, Num(s.v)>>)
\* Points 500 units apart (5 * 10^-4): the same with the larger tolerance only.
UseText(u) ==
  CASE u = "circle" -> <<"circle 1500000 -700000 " \o Num(5 * U)>>
    [] u = "chole" -> <<"chole -3000000 700001 " \o Num(2 * U)>>
    [] u = "arc" -> <<"arc 0 0 " \o Num(3 * U) \o " -1920 12821">>
    [] u = "peq" -> <<"peq 0 0 500 -500", "peq 0 0 2 -1", "peq 0 0 0 2000">>
    [] u = "cut" -> <<"ccut " \o PtsText(<<<<-1000001, -999999>>, <<9000001, -1000000>>, <<9123456, 7654321>>, <<-999983, 7654323>>>>, 1)
                              \o " " \o PtsText(<<<<2000003, -3000001>>, <<4500007, -2000017>>, <<3500011, 3100013>>>>, 1)>>
    [] u = "write" -> <<"mwrite poly 4 0 0 0 1048575000 3 0 1048577000 1073741825001 0 1 1048576000 0 1 4 0 1 2 3">>

VARIABLES conf, path
vars == <<conf, path>>
Init == conf = Defaults /\ path = <<"conf", "cnames">>
Field(w) == IF w = "pname" THEN "prec" ELSE w
Next == /\ Len(path) < 2 + Depth
        /\ \/ \E s \in Sets : /\ conf' = [conf EXCEPT ![Field(s.w)] = s.v]
                              /\ path' = Append(path, SetText(s))
           \/ \E u \in Uses : conf' = conf /\ path' = path \o UseText(u)
        /\ Emit(path' \o <<"conf">>)
Spec == Init /\ [][Next]_vars

\* A setting reads back, and leaves the others.
Settings == [][\A s \in Sets : path' = Append(path, SetText(s)) =>
  LET ev == [e |-> "cset", w |-> s.w, v |-> s.v, grade |-> conf'.grade, scale |-> conf'.scale, prec |-> conf'.prec, tol |-> conf'.tol] IN
  Set(conf, ev) = [st |-> conf', faults |-> {}]]_vars
=============================================================================
