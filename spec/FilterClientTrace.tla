------------------------- MODULE FilterClientTrace -------------------------
EXTENDS FilterClient, TraceLib
VARIABLE l
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> f' = Off
    [] Ev.op = "install" -> Install(Ev.args, Ev.req, Ev.out = "ok", Ev.id)
    [] Ev.op = "newfailed" -> f.st = "refused" /\ UNCHANGED f
    [] Ev.op = "new" -> f.st = "on" /\ UNCHANGED f
    [] Ev.op = "fetch" -> Fetch(Ev.what, Ev.id)
    [] Ev.op = "answer" -> Answer(Ev.logs)
    [] Ev.op = "fail" -> Fail(Ev.kind)
    [] Ev.op = "pass" -> Pass(Ev.log)
    [] Ev.op = "close" -> CloseCall
    [] Ev.op = "uninstall" -> Uninstall(Ev.id)
    [] Ev.op = "closed" -> CloseReturn
    [] Ev.op = "end" -> End
    [] Ev.op = "err" -> ErrAllowed(Ev.err) /\ UNCHANGED f
    [] Ev.op = "quiet" -> Finished /\ UNCHANGED f
    [] OTHER -> FALSE
TInit == Init /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<f, l>>
=============================================================================
