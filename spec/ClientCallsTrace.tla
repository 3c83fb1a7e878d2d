-------------------------- MODULE ClientCallsTrace --------------------------
EXTENDS ClientCalls, TraceLib
VARIABLE l
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> c' = Idle
    [] Ev.op = "begin" -> Begin(Ev.call)
    [] Ev.op = "req" -> Ask(Ev.m, Ev.ps)
    [] Ev.op = "ans" -> Answer(Ev.a)
    [] Ev.op = "end" -> End(Ev.out)
    [] Ev.op = "transfer" -> Transfer(Ev.r, Ev.log, Ev.ok, Ev.out, Ev.threw)
    [] OTHER -> FALSE
TInit == Init /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
