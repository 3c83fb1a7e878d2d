---------------------------- MODULE ScalarsTrace ----------------------------
EXTENDS Scalars, TraceLib
VARIABLE l
Sizes == [addr |-> 20, hash |-> 32, priv |-> 32, pub |-> 64, sig |-> 65]
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> typ' = Ev.typ /\ mem' = [i \in 1..Len(Ev.typ) |-> << >>]
    [] Ev.op = "set" -> Set(Ev.i, Ev.v)
    [] Ev.op = "print" -> Write(Ev.i, Ev.how, Ev.out)
    [] Ev.op = "parse" -> Read(Ev.i, Ev.how, Ev.x, Ev.st, Ev.v)
    [] Ev.op = "carry" -> Ev.st = "ok" /\ Carry(Ev.i, Ev.j)
    [] Ev.op = "look" -> Look(Ev.i, Ev.v)
    [] OTHER -> FALSE
TInit == typ = << >> /\ mem = << >> /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<typ, mem, l>>
=============================================================================
