--------------------------- MODULE BlockIterTrace ---------------------------
EXTENDS BlockIter, TraceLib
VARIABLE l
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> it' = None
    [] Ev.op = "start" -> Start(Ev.txs)
    [] Ev.op = "req" -> Req(Ev.n, Ev.txs)
    [] Ev.op = "reply" -> Reply(Ev.kind, Ev.b)
    [] Ev.op = "recv" -> Recv(Ev.n, Ev.b)
    [] Ev.op = "caughtup" -> CaughtUp /\ UNCHANGED it
    [] Ev.op = "stop" -> Stop
    [] Ev.op = "stopped" -> Stopped
    [] Ev.op = "end" -> End
    [] Ev.op = "quiet" -> it.ended /\ UNCHANGED it
    [] OTHER -> FALSE
TInit == Init /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<it, l>>
=============================================================================
