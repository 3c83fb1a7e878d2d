---------------------------- MODULE SenderTrace ----------------------------
EXTENDS Sender, TraceLib
VARIABLE l
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> s' = Idle
    [] Ev.op = "begin" -> ~s.on /\ Begin(Ev.call)
    [] Ev.op = "req" -> Request(Ev.r)
    [] Ev.op = "ans" -> Answer(Ev.a)
    [] Ev.op = "prompt" -> Prompt(Ev.h)
    [] Ev.op = "end" -> End(Ev.out)
    [] OTHER -> FALSE
TInit == Init /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<s, l>>
=============================================================================
