--------------------------- MODULE SourceMapTrace ---------------------------
EXTENDS SourceMap, TraceLib
VARIABLE l
Absent == -9
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> srcs' = << >> /\ cons' = << >>
    [] Ev.op = "load" -> Load(Ev.srcs, Ev.cons)
    [] Ev.op = "look" -> Look(Ev.c, Ev.pc, Ev.text)
    [] OTHER -> FALSE
TInit == srcs = << >> /\ cons = << >> /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
