------------------------------ MODULE AbiTrace ------------------------------
EXTENDS Abi, TraceLib
VARIABLE l
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> typ' = Ev.typ /\ mem' = [i \in 1..Len(Ev.typ) |-> << >>]
    [] Ev.op = "set" -> Set(Ev.i, Ev.v)
    [] Ev.op = "enc" -> Encode(Ev.sig, Ev.sel, Ev.is, Ev.st, Ev.out)
    [] Ev.op = "app" -> Append_(Ev.pre, Ev.i, Ev.out)
    [] Ev.op = "dec" -> Decode(Ev.d, Ev.is, Ev.st, Ev.vals)
    [] Ev.op = "look" -> Ev.i \in DOMAIN mem /\ mem[Ev.i] = <<Ev.v>> /\ UNCHANGED <<typ, mem>>
    [] OTHER -> FALSE
TInit == typ = << >> /\ mem = << >> /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<typ, mem, l>>
=============================================================================
