------------------------------ MODULE RpcTrace ------------------------------
(* recorded histories of seth.Client over NewClient(dial) against Rpc *)
EXTENDS Rpc, TraceLib
VARIABLES l, bad      \* bad: the calls whose parameters have no JSON form

Ev == Events[l]

End == CASE Ev.out = "conn" -> EndConn(Ev.c, Ev.v)
         [] Ev.out = "dial" -> EndDial(Ev.c, Ev.v)
         [] Ev.out = "encode" -> Ev.c \in bad /\ EndEncode(Ev.c)
         [] OTHER -> EndAnswered(Ev.c, Ev.out, Ev.v)

Step ==
  CASE Ev.op = "reset" -> calls' = << >> /\ conns' = << >> /\ dials' = << >> /\ bad' = {}
    [] Ev.op = "start" -> Ev.c = Len(calls) + 1 /\ Start /\ bad' = (IF Ev.bad THEN bad \cup {Ev.c} ELSE bad)
    [] Ev.op = "dial" -> Ev.k = Len(conns) + 1 /\ Dial /\ UNCHANGED bad
    [] Ev.op = "dialfail" -> Ev.n = Len(dials) + 1 /\ DialFail /\ UNCHANGED bad
    [] Ev.op = "req" -> Req(Ev.k, Ev.id, Ev.c) /\ UNCHANGED bad
    [] Ev.op = "cut" -> Cut(Ev.k, Ev.c) /\ UNCHANGED bad
    [] Ev.op = "resp" -> Resp(Ev.k, Ev.id, Ev.kind, Ev.v) /\ UNCHANGED bad
    [] Ev.op = "brk" -> Break(Ev.k) /\ UNCHANGED bad
    [] Ev.op = "close" -> Close(Ev.k) /\ UNCHANGED bad
    [] Ev.op = "end" -> End /\ UNCHANGED bad
    [] Ev.op = "quiet" -> Quiet /\ UNCHANGED <<rvars, bad>>
    [] OTHER -> FALSE

TInit == Init /\ l = 1 /\ bad = {}
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<rvars, l, bad>>
=============================================================================
