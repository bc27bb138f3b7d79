------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates a trace that the driver recorded from the library: every      *)
(* event is taken as a step of the specification, and the ways in which it *)
(* deviates from it are reported as faults <<scenario, property, text>>.   *)
(* The trace is accepted when every event was consumed, without faults.    *)
(* IOEnv.TRACE: the file.  IOEnv.CHECKS: the property to decide, or ALL.   *)
(*                                                                         *)
(* The state st of the library under its client is the product of the      *)
(* states of its parts: ses (Session), gen (Generators), conf (Config),    *)
(* poly (Polygons), cont (Containers; compares with the tolerance of conf).*)
(***************************************************************************)
EXTENDS Session, Json, IOUtils
G == INSTANCE Generators
C == INSTANCE Config
Co == INSTANCE Containers
Fi == INSTANCE Files
Ba == INSTANCE Basics

Events == ndJsonDeserialize(IOEnv.TRACE)
AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
             "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27"}
Want == IF IOEnv.CHECKS = "ALL" THEN AllProps ELSE {IOEnv.CHECKS}

VARIABLES l, scn, st
vars == <<l, scn, st>>

Start(p) == [p |-> p, ses |-> SessionInit, gen |-> G!GenInit, conf |-> C!Defaults, poly |-> PG!PolyInit, cont |-> Co!ContInit]

\* The properties that a command is judged by.
PropsOf(cmd) == CASE cmd \in SessionEvents -> SessionProps(cmd)
                  [] cmd \in G!GenEvents -> G!GenProps(cmd)
                  [] cmd \in C!ConfEvents -> C!ConfProps(cmd)
                  [] cmd \in PG!PolyEvents -> PG!PolyProps(cmd)
                  [] cmd \in Co!ContEvents -> Co!ContProps(cmd)
                  [] cmd \in Fi!FileEvents -> Fi!FileProps(cmd)
                  [] cmd \in Ba!BasicEvents -> Ba!BasicProps(cmd)
                  [] OTHER -> {}
Step(ev) ==
  CASE ev.e \in SessionEvents -> LET r == SessionStep(Want, st.ses, ev)
                                     \* a circular hole has the circle of the configuration
                                     c == IF ev.e = "rg_chole" THEN C!CirclePts(st.conf, [c |-> ev.cc, rad |-> ev.rad, pts |-> ev.hole.pts]) ELSE {}
                                 IN  [st |-> [st EXCEPT !.ses = r.st], faults |-> r.faults \cup c]
    [] ev.e \in G!GenEvents -> LET r == G!GenStep(st.gen, ev, st.p) IN [st |-> [st EXCEPT !.gen = r.st], faults |-> r.faults]
    [] ev.e \in C!ConfEvents -> LET r == C!ConfStep(st.conf, ev) IN [st |-> [st EXCEPT !.conf = r.st], faults |-> r.faults]
    [] ev.e \in PG!PolyEvents -> LET r == PG!PolyStep(st.poly, ev) IN [st |-> [st EXCEPT !.poly = r.st], faults |-> r.faults]
    [] ev.e \in Co!ContEvents -> LET r == Co!ContStep(st.cont, ev, (st.conf.tol - 1) \div 1024) IN [st |-> [st EXCEPT !.cont = r.st], faults |-> r.faults]
    [] ev.e \in Fi!FileEvents -> [st |-> st, faults |-> Fi!FileFaults(ev, st.conf.prec)]
    [] ev.e \in Ba!BasicEvents -> [st |-> st, faults |-> Ba!BasicFaults(ev)]

TraceInit == l = 1 /\ scn = "none" /\ st = Start(0) /\ TLCSet(1, {})

Report(S) == /\ \A f \in S : PrintT("FAULT|" \o f[1] \o "|" \o f[2] \o "|" \o f[3])
             /\ S = {} \/ TLCSet(1, TLCGet(1) \cup S)

TraceNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET ev == Events[l] IN
     IF ev.e = "begin" THEN scn' = ev.id /\ st' = Start(ev.p)
     ELSE /\ scn' = scn
          /\ IF ev.e \in {"end", "stopped"} THEN st' = st
             ELSE LET r == IF ev.e = "crash" THEN [st |-> st, faults |-> {<<p, "crash in " \o ev.cmd \o ": " \o ev.how>> : p \in PropsOf(ev.cmd)}]
                           ELSE IF "throw" \in DOMAIN ev THEN [st |-> st, faults |-> {<<p, ev.e \o " throws: " \o ev.what>> : p \in PropsOf(ev.e)}]
                           ELSE Step(ev)
                  IN  /\ st' = r.st
                      /\ Report({<<scn, f[1], f[2]>> : f \in {x \in r.faults : x[1] \in Want}})

TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Events) /\ TLCGet(1) = {}
=============================================================================
